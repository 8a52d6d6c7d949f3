/* P28: motions of curves: translation, scaling, rotation, folding, projection, perturbation */
//BOUND two components (3 closed / 2 open vertices; thorough 4) with arbitrary real coordinates in [-50,50], one constraint of each kind, arbitrary angles; rotation axes: coordinate directions (any vertices) and 4 oblique directions (vertices in the planes spanned by the axis and a fixed normal); pseudo-random numbers of the perturbation: 3 fixed streams; exact reals, tolerance 1e-6
//STUB rand : returns a fixed stream chosen by the job
//JOB p28_translate k=0..3
//JOB p28_scale k=0..3
//JOB p28_rot d=0..2 k=0..3
//JOB p28_rotob d=0..3,5,6 e=0..1
//JOB p28_rotob d=4 e=0
//JOB p28_rot0
//JOB p28_pfm a=0..3 b=0..3 x=0..2 o=0..1
//JOB p28_pfmwrap x=1
//JOB p28_toz d=0..7
//JOB p28_project d=0..6
//JOB p28_project0 noend=1
//JOB p28_perturb o=0..1 r=0..2 k=0..2
#include "curve.h"
static double KC[4][6]={{0},{1,2,3,0,0,0},{0,2,0,1,5,-2},{0,0,3,2,0,0}};
static double AX[7][3]={{0,0,2},{1,0,0},{0,-3,0},{1,2,-2},{4,3,0},{1,1,1},{-1,0,2}};
static double PE[7][2][3]={{{1,0,0},{1,-2,0}},{{0,0,1},{0,3,4}},{{0,0,-1},{1,0,1}},{{2,1,2},{2,-1,0}},{{3,-4,0},{3,-4,1}},{{1,-1,0},{1,1,-2}},{{2,0,1},{0,-5,0}}};
static int seed,rcount;
int rand(void){ static const double q[3][4]={{0.9,0.55,0.3,0.75},{0.1,0.2,0.85,0.4},{0.5,0.99,0.66,0.02}}; return (int)(q[seed][(rcount++)%4]*2147483646.0); }
void srand(unsigned s){ }
static plCurve *mk(rcurve *r,int k){ int i,j,c; memset(r,0,sizeof(*r)); r->nc=2; rc_sym(&r->p[0],3,0,1); rc_sym(&r->p[1],2,1,0); for(c=0;c<2;c++) for(i=0;i<r->p[c].nv;i++) for(j=0;j<3;j++) sym_assume(r->p[c].v[i][j]<=50&&r->p[c].v[i][j]>=-50); plCurve *L=rc_make(r); if(k){ rc_cst(L,r,0,1,1,k,KC[k]); rc_cst(L,r,1,0,k==1?1:2,k,KC[k]); } return L; }
static void rotv(const double *v,const double *ax,double s,double c,double *o){ double n=sqrt(ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2]),u[3],x[3],d; int k; for(k=0;k<3;k++) u[k]=ax[k]/n; d=(u[0]*v[0]+u[1]*v[1]+u[2]*v[2])*(1-c); for(k=0;k<3;k++) x[k]=u[(k+1)%3]*v[(k+2)%3]-u[(k+2)%3]*v[(k+1)%3]; for(k=0;k<3;k++) o[k]=v[k]*c+x[k]*s+u[k]*d; }
static double db(const char *n,double m){ double x=sym_real(n); sym_assume(x<=m&&x>=-m); return x; }
void p28_translate(void){ rcurve r; int k=sym_arg("k",0),c,i,j; plCurve *L=mk(&r,k); double t[3]; for(j=0;j<3;j++) t[j]=db("t",50); plc_translate(L,V3(t[0],t[1],t[2])); for(c=0;c<2;c++) for(i=0;i<r.p[c].nv;i++){ for(j=0;j<3;j++) r.p[c].v[i][j]+=t[j]; double *d=r.p[c].cv[i]; if(k==1) for(j=0;j<3;j++) d[j]+=t[j]; if(k==2) for(j=0;j<3;j++) d[3+j]+=t[j]; if(k==3) d[3]+=d[0]*t[0]+d[1]*t[1]+d[2]*t[2]; } rc_check(L,&r,1e-6); rc_check_cst(L,&r,1e-6); plc_free(L); sym_reach("end"); }
void p28_scale(void){ rcurve r; int k=sym_arg("k",0),c,i,j; plCurve *L=mk(&r,k); double s=db("s",50); plc_scale(L,s); for(c=0;c<2;c++) for(i=0;i<r.p[c].nv;i++){ for(j=0;j<3;j++) r.p[c].v[i][j]*=s; double *d=r.p[c].cv[i]; if(k==1) for(j=0;j<3;j++) d[j]*=s; if(k==2) for(j=0;j<3;j++) d[3+j]*=s; if(k==3) d[3]*=s; } rc_check(L,&r,1e-6); rc_check_cst(L,&r,1e-6); plc_free(L); sym_reach("end"); }
static void rotall(plCurve *L,rcurve *r,int k,double *ax){ double t=sym_real("angle"),s=sin(t),co=cos(t),o[3]; int c,i,j; plc_rotate(L,V3(ax[0],ax[1],ax[2]),t); for(c=0;c<r->nc;c++) for(i=0;i<r->p[c].nv;i++){ rotv(r->p[c].v[i],ax,s,co,o); for(j=0;j<3;j++) r->p[c].v[i][j]=o[j]; double *d=r->p[c].cv[i]; if(k>=1){ rotv(d,ax,s,co,o); for(j=0;j<3;j++) d[j]=o[j]; } if(k==2){ rotv(d+3,ax,s,co,o); for(j=0;j<3;j++) d[3+j]=o[j]; } } rc_check(L,r,1e-6); rc_check_cst(L,r,1e-6); }
void p28_rot(void){ rcurve r; int k=sym_arg("k",0); plCurve *L=mk(&r,k); rotall(L,&r,k,AX[sym_arg("d",0)]); plc_free(L); sym_reach("end"); }
void p28_rotob(void){ rcurve r; int d=sym_arg("d",3),i,j; memset(&r,0,sizeof r); r.nc=1; r.p[0].nv=2; r.p[0].open=1; for(i=0;i<2;i++){ double p=db("p",20),q=db("q",20); sym_assume(q>=0.01||q<=-0.01); for(j=0;j<3;j++) r.p[0].v[i][j]=p*AX[d][j]+q*PE[d][sym_arg("e",0)][j]; } plCurve *L=rc_make(&r); rotall(L,&r,0,AX[d]); plc_free(L); sym_reach("end"); }
void p28_rot0(void){ rcurve r; plCurve *L=mk(&r,2); plc_rotate(L,V3(0,0,0),sym_real("a")); rc_check(L,&r,0); rc_check_cst(L,&r,0); plc_free(L); sym_reach("end"); }
/* fold: the vertices strictly between a and b turn about the axis through a and b; everything else stays */
static void pfm(int a,int b,int wrap){ int x=sym_arg("x",2),open=sym_arg("o",0),i,j,nv=4,lo=a<b?a:b,hi=a<b?b:a; rcurve r; memset(&r,0,sizeof r); r.nc=1; rc_sym(&r.p[0],nv,open,0); for(i=0;i<nv;i++) for(j=0;j<3;j++) sym_assume(r.p[0].v[i][j]<=20&&r.p[0].v[i][j]>=-20); double h=sym_real("h"); sym_assume(h>=1&&h<=20); double *A=r.p[0].v[((lo%nv)+nv)%nv],*B=r.p[0].v[hi%nv]; for(j=0;j<3;j++) B[j]=A[j]+(j==x?h:0); plCurve *L=rc_make(&r); double t=sym_real("angle"),s=sin(t),c=cos(t),ax[3]={x==0,x==1,x==2},o[3],v[3]; plc_pfm(L,0,a,b,t); for(i=lo+1;i<hi;i++){ double *w=r.p[0].v[((i%nv)+nv)%nv]; for(j=0;j<3;j++) v[j]=w[j]-A[j]; rotv(v,ax,s,c,o); for(j=0;j<3;j++) w[j]=A[j]+o[j]; } rc_check(L,&r,1e-6); plc_free(L); sym_reach("end"); }
void p28_pfm(void){ int a=sym_arg("a",0),b=sym_arg("b",2); if(a==b){ sym_reach("end"); return; } pfm(a,b,0); }
void p28_pfmwrap(void){ int w=sym_choice("w",0,1); if(w==0) pfm(-1,2,1); else pfm(1,4,1); }
/* turn a unit axis to (0,0,1): a rotation (preserves dot products and orientation) which takes the axis there */
static const double U[8][3]={{0,0,1},{0,0,-1},{1,0,0},{0,-1,0},{0.6,0,0.8},{0,0.28,-0.96},{0.36,0.48,0.8},{-0.48,0.64,-0.6}};
void p28_toz(void){ const double *u=U[sym_arg("d",0)]; rcurve r; int i,j; memset(&r,0,sizeof r); r.nc=2; rc_sym(&r.p[0],3,0,0); rc_sym(&r.p[1],2,1,0); for(i=0;i<3;i++) for(j=0;j<3;j++) sym_assume(r.p[0].v[i][j]<=20&&r.p[0].v[i][j]>=-20); for(i=0;i<2;i++) for(j=0;j<3;j++) sym_assume(r.p[1].v[i][j]<=20&&r.p[1].v[i][j]>=-20); plCurve *L=rc_make(&r); plc_random_rotate(L,V3(u[0],u[1],u[2])); const plc_strand *s=&L->cp[0]; 
  for(i=0;i<3;i++){ NEAR(s->vt[i].c[2],r.p[0].v[i][0]*u[0]+r.p[0].v[i][1]*u[1]+r.p[0].v[i][2]*u[2],1e-6,"height is the coordinate along the axis"); for(j=0;j<=i;j++){ double *a=r.p[0].v[i],*b=r.p[0].v[j]; NEAR(s->vt[i].c[0]*s->vt[j].c[0]+s->vt[i].c[1]*s->vt[j].c[1]+s->vt[i].c[2]*s->vt[j].c[2],a[0]*b[0]+a[1]*b[1]+a[2]*b[2],1e-6,"rotation preserves dot products"); } }
  double D=0,E=0; for(i=0;i<3;i++){ double *a=r.p[0].v[0],*b=r.p[0].v[1],*c=r.p[0].v[2]; int k=(i+1)%3,l=(i+2)%3; D+=a[i]*(b[k]*c[l]-b[l]*c[k]); E+=s->vt[0].c[i]*(s->vt[1].c[k]*s->vt[2].c[l]-s->vt[1].c[l]*s->vt[2].c[k]); } NEAR(D,E,1e-5,"rotation preserves orientation"); for(j=0;j<3;j++){ NEAR(s->vt[3].c[j],s->vt[0].c[j],0,"wrap-around vertices"); NEAR(s->vt[-1].c[j],s->vt[2].c[j],0,"wrap-around vertices"); } for(i=0;i<2;i++) NEAR(L->cp[1].vt[i].c[2],r.p[1].v[i][0]*u[0]+r.p[1].v[i][1]*u[1]+r.p[1].v[i][2]*u[2],1e-6,"every component turns"); plc_free(L); sym_reach("end"); }
void p28_project(void){ rcurve r; int i,j,c; plCurve *L=mk(&r,0); double *n=AX[sym_arg("d",0)],nn=n[0]*n[0]+n[1]*n[1]+n[2]*n[2]; plc_project(L,V3(n[0],n[1],n[2])); for(c=0;c<2;c++) for(i=0;i<r.p[c].nv;i++){ double *v=r.p[c].v[i],q=(v[0]*n[0]+v[1]*n[1]+v[2]*n[2])/nn; for(j=0;j<3;j++) v[j]-=q*n[j]; } rc_check(L,&r,1e-6); plc_free(L); sym_reach("end"); }
void p28_project0(void){ rcurve r; plCurve *L=mk(&r,0); sym_expect_exit(1); plc_project(L,V3(0,0,0)); CHECK(0,"no plane normal to the zero vector"); }
/* perturbation: moves no vertex by more than the radius, constrained vertices not at all */
void p28_perturb(void){ rcurve r; int i,j,k=sym_arg("k",0),open=sym_arg("o",0); memset(&r,0,sizeof r); r.nc=1; r.p[0].nv=4; r.p[0].open=open; for(i=0;i<4;i++) for(j=0;j<3;j++) r.p[0].v[i][j]=(i*i+j*i+j)%7; plCurve *L=rc_make(&r); rc_cst(L,&r,0,k,k==3?1:2,3,KC[3]); seed=sym_arg("r",0); double R=sym_real("radius"); sym_assume(R>=0&&R<=1); plc_perturb(L,R); int moved=0; for(i=0;i<4;i++){ double s=0; for(j=0;j<3;j++){ double d=L->cp[0].vt[i].c[j]-r.p[0].v[i][j]; s+=d*d; } if(r.p[0].ck[i]) NEAR(s,0,0,"constrained vertices do not move"); else { CHECK(s<=R*R+1e-9,"no vertex moves farther than the radius"); } } for(j=0;j<3;j++) if(!open){ NEAR(L->cp[0].vt[4].c[j],L->cp[0].vt[0].c[j],0,"wrap-around vertices"); NEAR(L->cp[0].vt[-1].c[j],L->cp[0].vt[3].c[j],0,"wrap-around vertices"); } plc_free(L); sym_reach("end"); }
