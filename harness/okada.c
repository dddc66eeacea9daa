/* Okada half-space solution: point source and rectangle against the half-space Green function. */
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <getopt.h>
#include "verif.h"
#include "grt/okada/okada.h"
/* Displacement component i at x of a unit force along j at xi in a half space x3<0 (Mindlin), times 4 pi mu. */
static double G(double al, int i, int j, const double x[3], const double s[3])
{
    double v=0;
    for(int im=0; im<2; im++){      /* im=0: the source itself, im=1: its mirror image */
        double R[3]={x[0]-s[0], x[1]-s[1], im? -x[2]-s[2] : x[2]-s[2]}; double r=sqrt(R[0]*R[0]+R[1]*R[1]+R[2]*R[2]);
        double A=0.5*((2-al)*(i==j)/r + al*R[i]*R[j]/(r*r*r));
        if(!im){ v+=A; continue; }
        double B=(i==j)/r+R[i]*R[j]/(r*r*r) + (1-al)/al*((i==j)/(r+R[2]) + (R[i]*(j==2)-R[j]*(i==2)*(j!=2))/(r*(r+R[2])) - R[i]*R[j]/(r*(r+R[2])*(r+R[2]))*(i!=2)*(j!=2));
        double C=(i==2?-1:1)*((2-al)*(R[i]*(j==2)-R[j]*(i==2))/(r*r*r) + al*s[2]*((i==j)/(r*r*r)-3*R[i]*R[j]/(r*r*r*r*r)));
        v+= B - A + x[2]*C;
    }
    return v;
}
static double al_,X[3],S[3],dip_;
static void syms(int dipmode)
{
    vopt("absnode",1);
    al_=vsym("alpha",0.2,0.95); X[0]=vsym("x",-30,30); X[1]=vsym("y",-30,30); X[2]=vsym("z",-20,0); S[0]=S[1]=0; S[2]=vsym("s3",-30,-0.1);
    dip_= dipmode==1? 90 : dipmode==2? 0 : vsym("dip",1,89);
    if(!dipmode){ double c0=cos(dip_*0.017453292519943295769236907684886); vassume(c0*c0>1e-8); }
    double a=X[0]-S[0], b=X[1]-S[1], c=X[2]-S[2]; vassume(a*a>1e-8); vassume(b*b>1e-8); vassume(c*c>1e-8); a=X[2]+S[2]; vassume(a*a>1e-8);
}
static void pt(const double pot[4], double u[3], double up[3][3]) { int r=grt_okada_dc3d0(al_,X[0]-S[0],X[1]-S[1],X[2],-S[2],dip_,pot[0],pot[1],pot[2],pot[3],u,up); vtrue("accepted",r==0); }
static const char *xn[3]={"x","y","z"};
static void moment(int k, double M[3][3])       /* over the rigidity */
{
    double d=dip_*0.017453292519943295769236907684886, n[3]={0,-sin(d),cos(d)}, v[3]={k==0,k==1?cos(d):0,k==1?sin(d):0}, lm=(2*al_-1)/(1-al_);
    for(int i=0;i<3;i++) for(int j=0;j<3;j++) M[i][j]= k==3? (i==j) : k==2? lm*(i==j)+2*n[i]*n[j] : v[i]*n[j]+v[j]*n[i];
}
static void point(int k, int dm)
{
    syms(dm); double pot[4]={0,0,0,0}; pot[k]=vsym("pot",0.1,10); double u[3],up[3][3]; pt(pot,u,up);
    double M[3][3]; moment(k,M);
    for(int i=0;i<3;i++){ double e=0; for(int j=0;j<3;j++){ double g=G(al_,i,j,X,S); e+=-M[j][0]*vdiff(g,"x")-M[j][1]*vdiff(g,"y")+M[j][2]*vdiff(g,"s3"); }
        char b[16]; snprintf(b,16,"u%d",i); veq(b,u[i],pot[k]*e/(4*M_PI)); }
    for(int i=0;i<3;i++) for(int l=0;l<3;l++){ char b[16]; snprintf(b,16,"d%du%d",l,i); veq(b,up[l][i],vdiff(u[i],xn[l])); }
    vreach("end");
}
#define P(k) void h_pt##k(void){ point(k,0);} void h_pt##k##_v(void){ point(k,1);} void h_pt##k##_h(void){ point(k,2);}
P(0) P(1) P(2) P(3)
/* several sources at once add up */
void h_ptsum(void)
{
    syms(0); double pot[4], u[3],up[3][3],su[3]={0},sup[3][3]={{0}}; for(int k=0;k<4;k++){ char b[8]; snprintf(b,8,"pot%d",k); pot[k]=vsym(b,-9,9); }
    for(int k=0;k<4;k++){ double q[4]={0}; q[k]=pot[k]; pt(q,u,up); for(int i=0;i<3;i++){ su[i]+=u[i]; for(int l=0;l<3;l++) sup[l][i]+=up[l][i]; } }
    pt(pot,u,up); for(int i=0;i<3;i++){ char b[16]; snprintf(b,16,"u%d",i); veq(b,u[i],su[i]); for(int l=0;l<3;l++){ snprintf(b,16,"d%du%d",l,i); veq(b,up[l][i],sup[l][i]); } }
    vreach("end");
}
/* on the axis through the source the limits hold; at the source and above the surface the solution refuses */
void h_ptedge(void)
{
    al_=vsym("alpha",0.2,0.95); dip_=vsym("dip",1,89); double dep=vsym("dep",0.1,30), z=vsym("z",-40,5), u[3],up[3][3]; int w=vint("where",0,1); if(w) vassume(z>0||z+dep==0); else { vassume(z<=0); double q=z+dep; vassume(q*q>1e-8); }
    int r=grt_okada_dc3d0(al_,0,0,z,dep,dip_,1,1,1,1,u,up);
    if(w){ vtrue("refused",r==(z>0?2:1)); for(int i=0;i<3;i++) veq("zero",u[i],0); } else { vtrue("accepted",r==0); }
    vreach("end");
}
/* rectangle */
/* the field of a rectangle is the integral of point sources over it: mixed derivative at each corner = the point source there */
#define ET1 -1.5
#define ET2 2.25
#define AT(e) (dm==1? (e) : vat(vat(e,"et1",ET1),"et2",ET2))
static void rectangle(int k, int dm, int ca, int cw)
{
    /* coordinates of the receiver relative to the corners (xi, et) and to the fault plane (q); every geometry is covered */
    vopt("absnode",1); al_=vsym("alpha",0.2,0.95); dip_= dm==2? 0 : dm? 90 : (ca^k)&1? 30 : 45; double d=dip_*0.017453292519943295769236907684886, sd=dm==2?0:dm?1:sin(d), cd=dm==2?1:dm?0:cos(d), lo=1e-8; vassume(dm||cd*cd>lo);
    double x[2],e[2],q= dm==1? vsym("q",-20,20):cw||dm==2? -3 : 2,p=vsym("p",-5,20),z=X[2]= dm==1? vsym("z",-9,0):-0.5; x[0]=vsym("xi1",-9,9); x[1]=vsym("xi2",-9,9); e[0]=dm==1?vsym("et1",-9,9):vsym("et1",ET1,ET1); e[1]=dm==1?vsym("et2",-9,9):vsym("et2",ET2,ET2);
    double y=p*cd+q*sd, dep=p*sd-q*cd-z, q2=q+2*z*cd; vassume(dep>0); vassume(q*q>lo); vassume(q2*q2>lo);
    for(int i=0;i<2;i++){ double f=e[i]-2*z*sd; vassume(x[i]*x[i]>lo); vassume(e[i]*e[i]>lo); vassume(f*f>lo); }
    double ds[3]={0,0,0}, u[3],up[3][3],v[3],vp[3][3],pot[4]={0,0,0,0}; ds[k]=pot[k]=vsym("disl",0.1,10); X[0]=vsym("x",-9,9);
    int r=grt_okada_dc3d(al_,X[0],y,z,dep,dip_,X[0]-x[0],X[0]-x[1],p-e[0],p-e[1],ds[0],ds[1],ds[2],u,up); vtrue("accepted",r==0);
    char nm[12]; snprintf(nm,12,"xi%d,et%d",ca+1,cw+1); double sg= ca==cw? 1:-1, ye=e[cw]*cd+q*sd, de=e[cw]*sd-q*cd; vassume(ye*ye>lo); vassume(de*de>lo); double d2=de-2*z; vassume(d2*d2>lo); 
    r=grt_okada_dc3d0(al_,x[ca],ye,z,de-z,dip_,pot[0],pot[1],pot[2],0,v,vp); vtrue("accepted",r==0);
    for(int i=0;i<3;i++){ char b[16]; snprintf(b,16,"u%d",i); veq(b,AT(vdiff(u[i],nm)),sg*AT(v[i])); for(int j=0;j<3;j++){ snprintf(b,16,"d%du%d",j,i); veq(b,AT(vdiff(up[j][i],nm)),sg*AT(vp[j][i])); } }
    vreach("end");
}
#define R(k) void h_rc##k##_ul(void){ rectangle(k,0,1,1);} void h_rc##k##_ur(void){ rectangle(k,0,0,1);} void h_rc##k##_ll(void){ rectangle(k,0,1,0);} void h_rc##k##_lr(void){ rectangle(k,0,0,0);} \
 void h_rv##k##_ul(void){ rectangle(k,1,1,1);} void h_rv##k##_ur(void){ rectangle(k,1,0,1);} void h_rv##k##_ll(void){ rectangle(k,1,1,0);} void h_rv##k##_lr(void){ rectangle(k,1,0,0);}
R(0) R(1) R(2)
#define RH(k) void h_rh##k##_ul(void){ rectangle(k,2,1,1);} void h_rh##k##_ur(void){ rectangle(k,2,0,1);} void h_rh##k##_ll(void){ rectangle(k,2,1,0);} void h_rh##k##_lr(void){ rectangle(k,2,0,0);}
RH(0) RH(1) RH(2)
/* an empty rectangle gives nothing (both ways); two adjacent rectangles add up to their union, and slip components add up */
void h_rcempty(void)
{
    vopt("absnode",1); al_=vsym("alpha",0.2,0.95); dip_= vint("v",0,1)? 90:30; double s=vsym("s",-9,9), u[3],up[3][3]; int w=vint("which",0,1);
    int r= w? grt_okada_dc3d(al_,3,4,-1,5,dip_,s,s,-2,1,1.5,2.5,3.5,u,up) : grt_okada_dc3d(al_,3,4,-1,5,dip_,-2,1,s,s,1.5,2.5,3.5,u,up); vtrue("accepted",r==0);
    for(int i=0;i<3;i++){ veq("u",u[i],0); for(int j=0;j<3;j++) veq("du",up[j][i],0); } vreach("end");
}
void h_rcsum(void)
{
    al_=vsym("alpha",0.2,0.95); dip_= vint("v",0,1)? 90:30; double d[3]={vsym("d1",-9,9),vsym("d2",-9,9),vsym("d3",-9,9)}, a[3],ap[3][3],u[3],up[3][3],su[3]={0},sp[3][3]={{0}};
    int r=grt_okada_dc3d(al_,3,4,-1,5,dip_,-3,2,-2.5,1,d[0],d[1],d[2],u,up); vtrue("accepted",r==0);
    for(int p=0;p<6;p++){ r=grt_okada_dc3d(al_,3,4,-1,5,dip_,p%2?-3:0.5,p%2?0.5:2,-2.5,1,p/2==0?d[0]:0,p/2==1?d[1]:0,p/2==2?d[2]:0,a,ap); vtrue("accepted",r==0); for(int i=0;i<3;i++){ su[i]+=a[i]; for(int j=0;j<3;j++) sp[j][i]+=ap[j][i]; } }
    for(int i=0;i<3;i++){ veq("u",u[i],su[i]); for(int j=0;j<3;j++) veq("du",up[j][i],sp[j][i]); } vreach("end");
}
/* above the surface and on the edge of the rectangle nothing is returned silently */
void h_rcedge(void)
{
    al_=0.6; int w=vint("where",0,2); double z= w==0? vsym("z",1e-3,5):-5, x= w==1? vsym("xe",-3,2) : w==2? -3:1, y= w==1? 1 : w==2? vsym("ye",-2,1):4, u[3],up[3][3];
    int r=grt_okada_dc3d(al_,x,y,z,5,0,-3,2,-2,1,1,1,1,u,up); vtrue("refused",r==(w==0?2:1)); for(int i=0;i<3;i++){ veq("u",u[i],0); for(int j=0;j<3;j++) veq("du",up[j][i],0); } vreach("end");
}
