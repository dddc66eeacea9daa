/* Reading a layered model: every depth keeps its material, the source and receiver become layer boundaries. */
#include "verif.h"
#include "grt.h"
enum { NL=3 };
static double H[NL], P[NL][5];        /* thickness; va vb rho qa qb */
static int LIQ;
static void put(const char *path, bool asdepth, bool q, double lastcol)
{
    FILE *f=fopen(path,"w"); fprintf(f,"# comment\n\n"); double dep=0;
    for(int i=0;i<NL;i++){
        double c0 = asdepth? dep : (i<NL-1? H[i] : lastcol); dep+=H[i];
        fprintf(f,"%s %s %s %s",vstr(c0),vstr(P[i][0]),vstr(P[i][1]),vstr(P[i][2]));
        if(q) fprintf(f," %s %s",vstr(P[i][3]),vstr(P[i][4]));
        fprintf(f,"\n"); if(i==0) fprintf(f,"   # another\n   \n");
    }
    fclose(f);
}
static void mk(bool q)
{
    static const char *c[5]={"va","vb","rho","qa","qb"}; char b[16];
    for(int i=0;i<NL;i++){ snprintf(b,16,"h%d",i); H[i]=vsym(b,0.5,20);
        for(int j=0;j<5;j++){ snprintf(b,16,"%s%d",c[j],i); P[i][j]= (j==1 && i==LIQ)? 0.0 : j>=3? (q? vsym(b,10,1000):0.0) : vsym(b,0.5,9); } }
}
static int layer_at(double z){ double t=0; for(int i=0;i<NL-1;i++){ t+=H[i]; if(z<=t) return i; } return NL-1; }   /* upper side at an interface */
static void same(const char *l, const MODEL1D *m, size_t i, int k)
{
    veq(l,m->Va[i],P[k][0]); veq(l,m->Vb[i],P[k][1]); veq(l,m->Rho[i],P[k][2]); veq(l,m->Qa[i],P[k][3]); veq(l,m->Qb[i],P[k][4]);
    veq(l,m->Qainv[i],P[k][3]>0.0? 1.0/P[k][3]:0.0); veq(l,m->Qbinv[i],P[k][4]>0.0? 1.0/P[k][4]:0.0); vtrue(l,m->isLiquid[i]==(P[k][1]==0.0));
}
static void rd(bool asdepth, bool q)
{
    mk(q); put("m",asdepth,q,vint("last",0,1)? 0.0:7.0);
    double ds=vsym("depsrc",0,60), dr=vsym("deprcv",0,60);
    if(LIQ>=0){ vassume(ds!=H[0]); vassume(dr!=H[0]); vassume(ds!=dr); }      /* h_fluidedge */
    MODEL1D *m=grt_read_mod1d_from_file("m",ds,dr,true);
    vtrue("n",m->n==NL+2); vtrue("isrc",m->isrc>=1 && m->isrc<m->n); vtrue("ircv",m->ircv>=1 && m->ircv<m->n); vtrue("distinct",m->isrc!=m->ircv);
    vtrue("up",m->ircvup==(ds>=dr) && (m->ircv<m->isrc)==(ds>=dr)); vtrue("ins",m->srcrcv_isInserted);
    veq("depsrc",m->Dep[m->isrc],ds); veq("deprcv",m->Dep[m->ircv],dr); veq("dsv",m->depsrc,ds); veq("drv",m->deprcv,dr);
    veq("dep0",m->Dep[0],0.0); for(size_t i=0;i+1<m->n;i++){ vtrue("thk",m->Thk[i]>=0.0); veq("dep",m->Dep[i+1],m->Dep[i]+m->Thk[i]); }
    for(int s=0;s<2;s++){ size_t i= s? m->isrc:m->ircv; int k=layer_at(s?ds:dr); same("at",m,i,k); same("above",m,i-1,k); }
    vtrue("bounds",m->topbound==GRT_BOUND_FREE && m->botbound==GRT_BOUND_HALFSPACE);
    double z=vsym("z",0,60); int k=layer_at(z); size_t i=0; while(i+1<m->n && !(z<m->Dep[i+1])) i++;
    bool edge=false; { double t=0; for(int j=0;j<NL-1;j++){ t+=H[j]; if(z==t) edge=true; } }
    if(!edge) same("material",m,i,k);
    MODEL1D *c=grt_copy_mod1d(m); vtrue("copyn",c->n==m->n && c->isrc==m->isrc && c->ircv==m->ircv && c->Va!=m->Va && c->isLiquid!=m->isLiquid);
    for(size_t j=0;j<m->n;j++){ veq("copy",c->Thk[j],m->Thk[j]); veq("copy",c->Dep[j],m->Dep[j]); veq("copy",c->Va[j],m->Va[j]); veq("copy",c->Vb[j],m->Vb[j]); veq("copy",c->Rho[j],m->Rho[j]); veq("copy",c->Qa[j],m->Qa[j]); veq("copy",c->Qbinv[j],m->Qbinv[j]); }
    grt_free_mod1d(c); grt_free_mod1d(m); vreach("end");
}
void h_read(void){ LIQ=-1; rd(false,true); }
void h_read_noq(void){ LIQ=-1; rd(false,false); }
void h_read_dep(void){ LIQ=-1; rd(true,true); }
void h_read_liq(void){ LIQ=0; rd(false,true); }
/* no source/receiver: model unchanged */
void h_plain(void)
{
    LIQ=-1; mk(true); put("m",vint("fmt",0,1),true,0.0); MODEL1D *m=grt_read_mod1d_from_file("m",-1.0,-1.0,true);
    vtrue("n",m->n==NL && !m->srcrcv_isInserted && m->isrc>=m->n && m->ircv>=m->n); double t=0;
    for(int i=0;i<NL;i++){ same("material",m,i,i); veq("dep",m->Dep[i],t); t+=H[i]; if(i<NL-1) veq("thk",m->Thk[i],H[i]); }
    vreach("end");
}
/* medium lookup by depth */
void h_lookup(void)
{
    LIQ=-1; mk(true); put("m",vint("fmt",0,1),true,3.0); size_t n; real_t (*a)[GRT_MODARR_NCOL]=grt_read_modarr_from_file("m",&n,false);
    vtrue("n",n==NL); for(int i=0;i<NL;i++){ if(i<NL-1) veq("h",a[i][0],H[i]); for(int j=0;j<5;j++) veq("col",a[i][j+1],P[i][j]); }
    double z=vsym("z",0,60),va,vb,rho; int k=layer_at(z); grt_modarr_medium_at_depth(n,(const real_t(*)[GRT_MODARR_NCOL])a,z,&va,&vb,&rho);
    veq("va",va,P[k][0]); veq("vb",vb,P[k][1]); veq("rho",rho,P[k][2]); vreach("end");
}
/* physically meaningless models are refused, all others accepted */
void h_refuse(void)
{
    LIQ=-1; mk(true); int w=vint("which",0,7), l=vint("layer",0,2); double x=vsym("x",-5,5); bool liqok=vint("liqok",0,1), dep=false, good=true;
    if(w<5){ P[l][w]=x; good = w==1? (liqok? x>=0 : x>0) : x>0; }
    else if(w==5){ if(l<2){ H[l]=x; good = x>0 || (l==0&&x==0); vassume(!(l==0 && x==0)); } }
    else { dep=true; if(l<2){ H[l]=x; vassume(l==1||x!=0); good=x>0; } }
    put("m",dep,true,1.0); double ds=0.25, dr=vsym("deprcv",-5,25); vassume(dr!=0);
    if(dr<0) good=false;
    bool edge=false; if(w==1&&x==0.0) edge=true;       /* source or receiver on a fluid interface: h_fluidedge */
    vexit_ok(); if(good && !edge) vnoerr("valid model refused");
    MODEL1D *m=grt_read_mod1d_from_file("m",ds,dr,liqok); vtrue("accepted",good); vtrue("n",m->n==NL+2); vreach("end");
}
void h_fluidedge(void)
{
    LIQ=vint("liq",0,2); mk(false); put("m",false,false,1.0); int ps=vint("ps",0,3), pr=vint("pr",0,3);
    double t[4]={0.5*H[0],H[0],H[0]+H[1],H[0]+H[1]+1.0}, ds=t[ps], dr=t[pr];
    bool fe[4]={false,LIQ==0||LIQ==1,LIQ==1||LIQ==2,false}, good=!fe[ps]&&!fe[pr];
    if(good) vassume(ps!=pr || (ps==0? LIQ!=0 : LIQ!=2));     /* coincident inside a fluid: h_fluidcoincide */
    vexit_ok(); if(good) vnoerr("valid position refused");
    grt_read_mod1d_from_file("m",ds,dr,true); vtrue("accepted",good); vreach("end");
}
void h_boundary(void)
{
    LIQ=-1; mk(false); put("m",false,false,1.0); double ds=vsym("depsrc",0,60), dr=vsym("deprcv",0,60); GRT_BOUND_TYPE T[3]={GRT_BOUND_FREE,GRT_BOUND_RIGID,GRT_BOUND_HALFSPACE};
    MODEL1D *m=grt_read_mod1d_from_file("m",ds,dr,true); GRT_BOUND_TYPE t=T[vint("top",0,2)], b=T[vint("bot",0,2)];
    bool inhs = ds>H[0]+H[1] || dr>H[0]+H[1], good = b==GRT_BOUND_HALFSPACE || !inhs;
    vexit_ok(); if(good) vnoerr("valid boundary refused");
    grt_set_mod1d_boundary(m,t,b); vtrue("accepted",good); vtrue("set",m->topbound==t&&m->botbound==b); vreach("end");
}
void h_vrange(void)
{
    LIQ=vint("liq",-1,1); mk(false); MODEL1D *m=grt_init_mod1d(2); for(int i=0;i<2;i++){ m->Va[i]=P[i][0]; m->Vb[i]=P[i][1]; vassume(P[i][0]>P[i][1]); } double lo,hi; grt_get_mod1d_vmin_vmax(m,&lo,&hi);
    bool il=false, ih=false; for(int i=0;i<2;i++)for(int j=0;j<2;j++){ if(P[i][j]==0.0) continue; vtrue("lo",lo<=P[i][j]); vtrue("hi",hi>=P[i][j]); il|=lo==P[i][j]; ih|=hi==P[i][j]; }
    vtrue("attained",il&&ih);
    double v=vsym("v",0.5,9), tol=vsym("tol",0.001,0.1); bool in=false; for(int i=0;i<2;i++)for(int j=0;j<2;j++) if(fabs(v-P[i][j])<tol) in=true;
    vtrue("invel",grt_check_vel_in_mod(m,v,tol)==in); vreach("end");
}
/* complex moduli and vertical slownesses at a frequency and wavenumber */
static void state(bool el, bool inserted)
{
    LIQ=-1; mk(true); if(vint("noq0",0,1)) P[0][3]=0.0;
    MODEL1D *m=grt_init_mod1d(3); for(int i=0;i<3;i++){ m->Va[i]=P[i][0]; m->Vb[i]=P[i][1]; m->Rho[i]=P[i][2]; m->Qainv[i]=P[i][3]>0? 1.0/P[i][3]:0; m->Qbinv[i]=1.0/P[i][4]; m->Thk[i]=H[i]; m->isLiquid[i]=false; }
    m->Vb[2]=0.0; m->isLiquid[2]=true; P[2][1]=0.0;
    if(inserted){ m->srcrcv_isInserted=true; m->isrc=2; m->ircv=1; for(int i=1;i<3;i++){ m->Va[i]=m->Va[0]; m->Vb[i]=m->Vb[0]; m->Rho[i]=m->Rho[0]; m->Qainv[i]=m->Qainv[0]; m->Qbinv[i]=m->Qbinv[0]; m->isLiquid[i]=false; memcpy(P[i],P[0],sizeof(P[0])); } }
    double wr=vsym("wr",0.1,50), wi=vsym("wi",-1,0), k=vsym("k",0.01,10); m->omgref=vsym("wref",1,50);
    MODEL1D_STATE *s=grt_init_mod1d_state(m); cplx_t w=wr+wi*I; grt_update_mod1d_state_omega(s,w,el); grt_update_mod1d_state_k(s,k);
    VCEQ("c",s->c_phase*k,w); veq("k",s->k,k);
    for(int i=0;i<3;i++){
        cplx_t L=clog(w/m->omgref), a=1.0, b=1.0;
        if(!el){ if(m->Qainv[i]>0.0) a=1.0+m->Qainv[i]*(L/PI+0.5*I); b=1.0+m->Qbinv[i]*(L/PI+0.5*I); }
        VCEQ("atna",s->atna[i],a); VCEQ("atnb",s->atnb[i],b);
        cplx_t va=P[i][0]*a, vb=P[i][1]*b; VCEQ("mu",s->mu[i],P[i][2]*vb*vb); VCEQ("p",s->lambda[i]+2.0*s->mu[i],P[i][2]*va*va);
        VCEQ("delta",s->delta[i]*(s->lambda[i]+3.0*s->mu[i]),s->lambda[i]+s->mu[i]);
        VCEQ("ca",s->caca[i]*va*va*k*k,w*w); VCEQ("xa",s->xa[i]*s->xa[i],1.0-s->caca[i]); if(i==0) vtrue("xapos",creal(s->xa[i])>=0.0);
        if(m->isLiquid[i]){ VCEQ("cb0",s->cbcb[i],0.0); VCEQ("xb1",s->xb[i],1.0); } else { VCEQ("cb",s->cbcb[i]*vb*vb*k*k,w*w); VCEQ("xb",s->xb[i]*s->xb[i],1.0-s->cbcb[i]); if(i==1 && inserted) vtrue("xbpos",creal(s->xb[i])>=0.0); }
    }
    MODEL1D_STATE *c=grt_copy_mod1d_state(s); vtrue("copy",c->mu!=s->mu && c->xa!=s->xa && c->mod1d==m); VCEQ("cmu",c->mu[1],s->mu[1]); VCEQ("cxb",c->xb[2],s->xb[2]); VCEQ("cdelta",c->delta[0],s->delta[0]);
    vreach("end");
}
void h_state_el(void){ state(true,false); }
void h_state_q(void){ state(false,false); }
void h_state_ins(void){ state(false,true); }
/* source and receiver at one depth inside a homogeneous fluid layer: no interface there */
void h_fluidcoincide(void)
{
    LIQ=0; mk(false); put("m",false,false,1.0); double d=vsym("d",0.01,0.49); vnoerr("coincident depths inside a fluid layer refused");
    grt_read_mod1d_from_file("m",d,d,true); vreach("end");
}
