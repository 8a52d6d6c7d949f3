/* P37: the diagram of a space curve */
//BOUND knots of 4..7 edges and links of 2..3 triangles and squares, one coordinate of one vertex (or the position of a whole component along a direction) arbitrary within an interval in which crossings appear, disappear and change over and under; positions within 1e-4 of a degenerate projection excluded; six families of curves whose projection is not generic (triple point, vertex above an edge, vertical edge, edges above each other), one height arbitrary
//STUB octrope_thickness : returns 0.05 (only the size of the perturbations of degenerate projections depends on it)
//STUB gsl_ran_flat : a fixed stream of values in its range (one of two)
//JOB p37_knot k=0..2 v=0..2 c=0..2 forksel=1
//JOB p37_knot k=3 v=0 c=0,2 forksel=1
//JOB p37_knot k=3 v=1 c=0..2 forksel=1
//JOB p37_knot k=4 v=0,2 c=0,2 forksel=1 cost=5
//JOB p37_knot k=4 v=1 c=1 forksel=1 cost=5
//JOB p37_knot k=4 v=0..2 c=0..2 tier=thorough forksel=1
//JOB p37_link k=0..2 d=0..2 forksel=1 cost=4
//JOB p37_link k=3 d=0,2 forksel=1 cost=9
//JOB p37_link k=3 d=1 tier=thorough forksel=1
//JOB p37_degen k=0..5 v=0..1 g=0..1 forksel=1
//JOB p37_inv k=0..2,4 v=0..1 forksel=1
//JOB p37_none
#include "proj.h"
#include "homfly.h"
static double thick=0.05; double octrope_thickness(plCurve *L,double *m,int a,double l){ return thick; }
static unsigned rs=1; double gsl_ran_flat(const void *r,double a,double b){ rs=rs*1103515245u+12345u; return a+(b-a)*((rs>>8)&0xffff)/65536.0; }
static const struct { int nv; double v[7][3]; } KS[]={
 {5,{{1,0,0.3},{-0.81,0.59,-0.4},{0.31,-0.95,0.5},{0.31,0.95,-0.3},{-0.81,-0.59,0.1}}},
 {6,{{2,0,0.5},{-1,1.7,-0.6},{0.1,-1.2,0.7},{-1.1,-1.6,-0.5},{0.9,0.8,0.6},{-1.9,0.2,-0.7}}},
 {6,{{0,0,0},{3,0.3,1},{1,2.1,-1},{1.3,-1.2,1.5},{2.8,1.9,0.2},{-0.4,1.4,-0.9}}},
 {4,{{0,0,0},{2,2,1},{2.2,-0.3,0.2},{0.1,1.8,-0.7}}},
 {7,{{1,0,0.4},{-0.9,0.43,-0.5},{0.62,-0.78,0.2},{-0.22,0.97,0.6},{-0.22,-0.97,-0.6},{0.62,0.78,0.1},{-0.9,-0.43,-0.2}}} };
static rcurve C; static rmap M,R;
static void judge(void){ int ok=proj_map(&C,&M,1e-4); plCurve *L; pd_code_t *pd; if(!ok) sym_assume(C.nc==1); if(ok) sym_assume(rm_connected(&M)); L=rc_make(&C); pd=pd_code_from_plCurve(0,L); CHECK(pd!=0,"a diagram is made"); CHECK(ref_bad(pd)==0,"the diagram is consistent"); rm_from_pd(&R,pd);
  if(ok) CHECK(rm_iso(&M,&R,M_SIGN|M_ORIENT),"the diagram has the crossings of the projection, in order, with their signs"); else { CHECK(R.n==1&&R.ncomps==1,"a curve without crossings gives the one-crossing unknot"); }
  rc_check(L,&C,0); pd_code_free(&pd); plc_free(L); sym_reach("end"); }
static void comp(int c,int nv,const double (*v)[3]){ int i,k; C.p[c].nv=nv; for(i=0;i<nv;i++) for(k=0;k<3;k++) C.p[c].v[i][k]=v[i][k]; }
void p37_knot(void){ int k=sym_arg("k",0),v=sym_arg("v",0),c=sym_arg("c",0); double t=sym_real("t"); sym_assume(t>=-2&&t<=2); C.nc=1; comp(0,KS[k].nv,KS[k].v); C.p[0].v[v*2%KS[k].nv][c]+=t; judge(); }
static const double TR[4][4][3]={ {{-2,-1.1,0},{2,-1,0.2},{0.1,2,-0.1}}, {{0.2,-0.6,-1},{1.1,0.3,1.2},{-1.3,0.7,0.9}}, {{-1,-1,0.5},{1,-1.1,-0.5},{1.1,1,0.4},{-1.05,0.9,-0.6}}, {{-1,-0.9,0.3},{1,1.1,-0.6},{1.2,-1,0.8},{-0.9,1.2,-0.2}} };
void p37_link(void){ static const int PA[4][3]={{0,1,-1},{2,0,-1},{3,1,-1},{2,1,0}}; static const double D[3][3]={{1,0.2,0},{0.1,1,0.3},{0.2,-0.3,1}}; int k=sym_arg("k",0),d=sym_arg("d",0),i,j,c; double t=sym_real("t"); sym_assume(t>=-2&&t<=2);
  for(c=0;c<3&&PA[k][c]>=0;c++){ comp(c,PA[k][c]>=2?4:3,TR[PA[k][c]]); if(c==1) for(i=0;i<C.p[1].nv;i++) for(j=0;j<3;j++) C.p[1].v[i][j]+=t*D[d][j]+0.07; if(c==2) for(i=0;i<C.p[2].nv;i++) for(j=0;j<3;j++) C.p[2].v[i][j]+=0.45*j-0.3; } C.nc=c; judge(); }
/* projections that are not generic: the result has the link type of a slightly sheared curve */
static const struct { int n1,n2; double v[8][3]; } DG[]={
 {6,0,{{-2,0,0.9},{2,0,0.8},{1,2,0},{-1,-2,0.1},{-1,2,-0.9},{1,-2,-0.8}}},            /* triple point */
 {6,0,{{-2,0,1},{2,0,-0.5},{0,2,0.5},{0,0,-1},{1,-1,0.4},{-1,1.5,0.7}}},            /* a vertex above an edge */
 {5,0,{{0,0,0},{2,0,0.5},{2,0,1.5},{0.5,1,-0.6},{1,-1,0.9}}},                        /* a vertical edge */
 {6,0,{{0,0,0},{3,0,0.3},{3,2,1},{2,0,1.2},{-1,0,0.9},{1,1.5,-0.4}}},                /* edges above each other along a segment */
 {3,3,{{-2,-1,0},{2,-1,0.2},{0,2,-0.1},{0,2,1},{0.3,-2,0.8},{1.2,0.4,-1.5}}},         /* vertices above each other */
 {3,3,{{-1,-1,0},{3,-1,0},{-1,3,0},{0.5,0.5,1},{0.5,0.5,-1},{-2,-1.3,0.4}}} };         /* vertical edge through a triangle */
static hpoly want,got;
static void setk(int k,int v,int c,double t,int sh){ int i,j; C.nc= DG[k].n2?2:1; for(i=0;i<DG[k].n1+DG[k].n2;i++){ int q= i<DG[k].n1?0:1, w=q?i-DG[k].n1:i; double x[3]; for(j=0;j<3;j++) x[j]=DG[k].v[i][j]+(i==v&&j==c?t:0); if(sh){ x[0]+=0.11*x[2]; x[1]-=0.07*x[2]; } C.p[q].nv= q?DG[k].n2:DG[k].n1; for(j=0;j<3;j++) C.p[q].v[w][j]=x[j]; } }
void p37_degen(void){ int k=sym_arg("k",0),v=sym_arg("v",0)*3; double t=sym_real("t"); double lim= k?0.8:0.05; sym_assume(t>=-lim&&t<=lim); rs=1+sym_arg("g",0)*77; setk(k,v,2,t,1); proj_zm=5e-2; int ok=proj_map(&C,&M,3e-3); if(ok) sym_assume(rm_connected(&M)); setk(k,v,2,t,0); plCurve *L=rc_make(&C); 
  if(ok) hp_ref(&M,&want); else { sym_assume(C.nc==1); hp_unlink(&want,1); }
  pd_code_t *pd=pd_code_from_plCurve(0,L); CHECK(pd!=0,"a diagram is made of an embedded curve whose projection is not generic"); CHECK(ref_bad(pd)==0,"the diagram is consistent"); rm_from_pd(&R,pd); CHECK(R.ncomps==C.nc,"number of components"); hp_ref(&R,&got); CHECK(hp_eq(&want,&got),"the diagram has the polynomial of the curve"); pd_code_free(&pd); rc_check(L,&C,0); plc_free(L); sym_reach("end"); }
void p37_inv(void){ int k=sym_arg("k",0),v=sym_arg("v",0); double t=sym_real("t"); sym_assume(t>=-2&&t<=2); C.nc=1; comp(0,KS[k].nv,KS[k].v); C.p[0].v[v*2%KS[k].nv][2]+=t; if(proj_map(&C,&M,1e-4)) hp_ref(&M,&want); else hp_unlink(&want,1); plCurve *L=rc_make(&C); char *s=plc_homfly(0,L); CHECK(s!=0&&hp_parse(s,&got),"a polynomial is returned"); CHECK(hp_eq(&want,&got),"the polynomial of the curve is that of its diagram"); free(s);
  int np=-7,i,tre=0; hpoly u; hp_unlink(&u,1); plc_knottype *kt=plc_classify(0,L,&np); CHECK(np>=1&&kt,"the knot is classified"); if(hp_eq(&want,&u)) CHECK(kt[0].cr[0]==0,"unknot"); else { hp_zero(&u); hp_put(&u,PR-2,PR,-2); hp_put(&u,PR-4,PR,-1); hp_put(&u,PR-2,PR+2,1); if(hp_eq(&want,&u)) tre=1; hp_zero(&u); hp_put(&u,PR+2,PR,-2); hp_put(&u,PR+4,PR,-1); hp_put(&u,PR+2,PR+2,1); if(hp_eq(&want,&u)) tre=1; if(tre) CHECK(kt[0].cr[0]==3&&kt[0].ind[0]==1,"trefoil"); else CHECK(kt[0].cr[0]>=4,"another knot"); } free(kt); rc_check(L,&C,0); plc_free(L); sym_reach("end"); }
void p37_none(void){ double t=sym_real("t"); sym_assume(t>=-0.8&&t<=0.8); thick=0; setk(1,0,2,t,0); plCurve *L=rc_make(&C); CHECK(pd_code_from_plCurve(0,L)==0,"no diagram of a curve of thickness zero"); rc_check(L,&C,0); plc_free(L); sym_reach("end"); }
#ifndef SYM_ENTRY
long clock(void){ return 0; }
void *signal(int s,void *h){ return 0; }
#endif
