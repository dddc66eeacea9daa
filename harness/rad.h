/* radiation factors A[source][component] of a source at azimuth az and their azimuth derivatives B, from first principles:
 * components of the force / moment tensor in the frame (up, radial, transverse) turned to the azimuth */
#ifndef RAD_H
#define RAD_H
#define SRC_NEED(k,im) ((k)==0? (im)==0 : (k)==1? ((im)==1||(im)==2) : (k)==2? (im)>=3 : ((im)==0||(im)>=3))
static const char *SRC[6]={"EX","VF","HF","DD","DS","SS"}; static const int ORD[6]={0,0,1,0,1,2};
static double A[6][3], B[6][3];
static void rad(int kind, double M0, double az, double vpvs, const double *m)
{
    double c=cos(az), s=sin(az); memset(A,0,sizeof(A)); memset(B,0,sizeof(B));
    if(kind==0){ A[0][0]=A[0][1]=1e-20*M0; return; }
    if(kind==1){ double u=1e-15*M0; A[1][0]=A[1][1]=u*m[2]; A[2][0]=A[2][1]=u*(m[0]*c+m[1]*s); A[2][2]=u*(m[1]*c-m[0]*s); B[2][0]=B[2][1]=A[2][2]; B[2][2]=-A[2][0]; return; }
    double M[3][3], q=DEG1;
    if(kind==4){ double t[3][3]={{m[0],m[1],m[2]},{m[1],m[3],m[4]},{m[2],m[4],m[5]}}; memcpy(M,t,sizeof(t)); }
    else {
        double st=m[0]*q, di=m[1]*q, ra=m[2]*q, n[3]={-sin(di)*sin(st), sin(di)*cos(st), -cos(di)};
        double d[3]={cos(ra)*cos(st)+cos(di)*sin(ra)*sin(st), cos(ra)*sin(st)-cos(di)*sin(ra)*cos(st), -sin(ra)*sin(di)};
        for(int i=0;i<3;i++)for(int j=0;j<3;j++) M[i][j]= kind==2? n[i]*d[j]+n[j]*d[i] : 2.0*n[i]*n[j]+(i==j?vpvs*vpvs-2.0:0.0);
    }
    double u=1e-20*M0, tr=(M[0][0]+M[1][1]+M[2][2])/3.0;
    double Mrr=c*c*M[0][0]+2.0*c*s*M[0][1]+s*s*M[1][1], Mtt=s*s*M[0][0]-2.0*c*s*M[0][1]+c*c*M[1][1];
    double Mrt=c*s*(M[1][1]-M[0][0])+(c*c-s*s)*M[0][1], Mrz=c*M[0][2]+s*M[1][2], Mtz=c*M[1][2]-s*M[0][2];
    A[0][0]=A[0][1]=u*tr; A[3][0]=A[3][1]=u*(M[2][2]-tr)/2.0; A[4][0]=A[4][1]=-u*Mrz; A[4][2]=-u*Mtz; A[5][0]=A[5][1]=u*(Mrr-Mtt)/2.0; A[5][2]=u*Mrt;
    B[4][0]=B[4][1]=-u*Mtz; B[4][2]=u*Mrz; B[5][0]=B[5][1]=2.0*u*Mrt; B[5][2]=-u*(Mrr-Mtt);
}
#endif
