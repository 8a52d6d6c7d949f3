/* P23: constraints on vertices */
//BOUND two components of 3 (thorough 4) and 2 vertices; every sequence of 3 constrain/unconstrain operations on arbitrary runs of vertices (thorough: 4 operations); arbitrary real coordinates of the vertices for projection and distance
//JOB p23_seq nv=3 a=1..3 b=0..6 k=3
//JOB p23_seq nv=4 a=0..4 b=0..6 k=3 tier=thorough
//JOB p23_remove nv=4 a=1..3 b=1..6
//JOB p23_all nv=4 a=1..4
//JOB p23_fix kind=1..3 dir=0..4
//JOB p23_fix2 kind=1..3
//JOB p23_copy nv=4 a=1..4 b=1..4
#include "curve.h"
static const double D[7][6]={{0,0,0,0,0,0},{1,2,3,0,0,0},{1,0,0,0,1,2},{0,1,1,3,0,0},{2,0,0,0,1,2},{1,0,0,0,1,5},{0,1,1,5,0,0}};   /* none, fixed, line A, plane A, lines B (other direction) and C (other point), plane B (other distance) */
static const int KD[7]={0,1,2,3,2,2,3};
#define NV0 sym_arg("nv",3)
static void init(rcurve *r){ int i,j,k; memset(r,0,sizeof(*r)); r->nc=2; for(i=0;i<2;i++){ r->p[i].nv=i?2:NV0; r->p[i].open=i; for(j=0;j<r->p[i].nv;j++) for(k=0;k<3;k++) r->p[i].v[j][k]=i*7+j*j+k*j; } }
/* the run is symbolic; the model is updated vertex by vertex */
static void op(plCurve *L,rcurve *r,int o,int sel[2][5],int which){ int cmp=sym_choice("cmp",0,1),nv=r->p[cmp].nv,v=sym_range("vert",0,nv-1),n=KD[o]==1?1:sym_range("n",1,4),j; sym_assume(v+n<=nv); const double *d=D[o]; if(KD[o]==0) plc_unconstrain(L,cmp,v,n); else if(KD[o]==1) plc_set_fixed(L,cmp,v,V3(d[0],d[1],d[2])); else if(KD[o]==2) plc_constrain_to_line(L,cmp,v,n,V3(d[0],d[1],d[2]),V3(d[3],d[4],d[5])); else plc_constrain_to_plane(L,cmp,v,n,V3(d[0],d[1],d[2]),d[3]); for(j=0;j<nv;j++) sel[cmp][j]=(v<=j&&j<v+n)?o:sel[cmp][j]; }
static void chk(plCurve *L,rcurve *r,int sel[2][5]){ const plc_constraint *c; int i,j,k; for(c=L->cst;c;c=c->next){ CHECK(c->cmp==0||c->cmp==1,"constraint on an existing component"); CHECK(c->vert>=0&&c->num_verts>=1&&c->vert+c->num_verts<=r->p[c->cmp].nv,"constraint on existing vertices"); CHECK(c->kind!=fixed||c->num_verts==1,"a fixed constraint has one vertex"); const plc_constraint *d; for(d=c->next;d;d=d->next) if(d->cmp==c->cmp) CHECK((c->vert+c->num_verts<=d->vert)|(d->vert+d->num_verts<=c->vert),"at most one constraint per vertex"); }
  for(i=0;i<2;i++) for(j=0;j<r->p[i].nv;j++){ plc_constraint *f=0; int is=plc_is_constrained(L,i,j,&f); CHECK(is==(sel[i][j]!=0),"exactly the constrained vertices are constrained"); if(is){ int o=sel[i][j],kd; for(kd=1;kd<7;kd++) if(o==kd){ CHECK((int)f->kind==(KD[kd]==1?fixed:KD[kd]==2?line:plane),"kind of constraint"); for(k=0;k<6;k++) CHECK(f->vect[k/3].c[k%3]==D[kd][k],"constraint data"); } } } }
void p23_seq(void){ rcurve r; init(&r); int sel[2][5]={{0}},k=sym_arg("k",3),i; plCurve *L=rc_make(&r); for(i=0;i<k;i++) op(L,&r,i==0?sym_arg("a",1):i==1?sym_arg("b",2):sym_choice("op",0,3),sel,i); chk(L,&r,sel); plc_free(L); sym_reach("end"); }
void p23_copy(void){ rcurve r; init(&r); int sel[2][5]={{0}}; plCurve *L=rc_make(&r); op(L,&r,sym_arg("a",1),sel,0); op(L,&r,sym_arg("b",2),sel,1); plCurve *C=plc_copy(L); plc_remove_all_constraints(L); CHECK(L->cst==NULL,"no constraints left"); plc_free(L); chk(C,&r,sel); plc_free(C); sym_reach("end"); }
void p23_remove(void){ rcurve r; init(&r); int sel[2][5]={{0}},i,j,n=0; plCurve *L=rc_make(&r); op(L,&r,sym_arg("a",1),sel,0); op(L,&r,sym_arg("b",2),sel,1); int o=sym_choice("rm",1,6); plc_vector v[2]={V3(D[o][0],D[o][1],D[o][2]),V3(D[o][3],D[o][4],D[o][5])}; for(i=0;i<2;i++) for(j=0;j<r.p[i].nv;j++){ n+=sel[i][j]==o; sel[i][j]=sel[i][j]==o?0:sel[i][j]; } int m=plc_remove_constraint(L,KD[o]==1?fixed:KD[o]==2?line:plane,v); CHECK(m==n,"number of vertices set free"); chk(L,&r,sel); plc_free(L); sym_reach("end"); }
void p23_all(void){ rcurve r; init(&r); int sel[2][5]={{0}},i,j; plCurve *L=rc_make(&r); op(L,&r,sym_arg("a",1),sel,0); op(L,&r,sym_choice("b",0,4),sel,1); plc_remove_all_constraints(L); for(i=0;i<2;i++) for(j=0;j<4;j++) sel[i][j]=0; chk(L,&r,sel); CHECK(plc_check_cst(L)==0,"no error without constraints"); plc_free(L); sym_reach("end"); }
static const double DIR[5][3]={{0,0,1},{0,2,0},{-3,0,0},{1,2,-2},{4,3,0}};
/* projection: fixing puts exactly the constrained vertices at the nearest allowed point; the reported error is the largest distance */
void p23_fix(void){ int kind=sym_arg("kind",1),j,k; const double *t=DIR[sym_arg("dir",0)]; rcurve r; memset(&r,0,sizeof r); r.nc=1; rc_sym(&r.p[0],3,0,0); plCurve *L=rc_make(&r); double p[3]; for(k=0;k<3;k++) p[k]=sym_real("p"); double d=sym_real("d"),tt=t[0]*t[0]+t[1]*t[1]+t[2]*t[2]; 
  if(kind==1) plc_set_fixed(L,0,1,V3(p[0],p[1],p[2])); else if(kind==2) plc_constrain_to_line(L,0,1,1,V3(t[0],t[1],t[2]),V3(p[0],p[1],p[2])); else plc_constrain_to_plane(L,0,1,1,V3(t[0],t[1],t[2]),d);
  double *x=r.p[0].v[1],q[3]; if(kind==1) for(k=0;k<3;k++) q[k]=p[k]; else if(kind==2){ double s=0; for(k=0;k<3;k++) s+=(x[k]-p[k])*t[k]; for(k=0;k<3;k++) q[k]=p[k]+s/tt*t[k]; } else { double s=-d; for(k=0;k<3;k++) s+=x[k]*t[k]; for(k=0;k<3;k++) q[k]=x[k]-s/tt*t[k]; }
  double e=plc_check_cst(L),sq=0; for(k=0;k<3;k++) sq+=(x[k]-q[k])*(x[k]-q[k]); CHECK(e>=0,"error is a distance"); NEAR(e*e,sq,1e-9,"reported error is the distance to the constraint"); for(k=0;k<3;k++) NEAR(L->cp[0].vt[1].c[k],x[k],0,"measuring changes nothing");
  plc_fix_cst(L); for(k=0;k<3;k++){ NEAR(L->cp[0].vt[1].c[k],q[k],1e-9,"constrained vertex moves to the nearest allowed point"); NEAR(L->cp[0].vt[0].c[k],r.p[0].v[0][k],0,"other vertices stay"); NEAR(L->cp[0].vt[2].c[k],r.p[0].v[2][k],0,"other vertices stay"); NEAR(L->cp[0].vt[3].c[k],r.p[0].v[0][k],0,"wrap-around"); } plc_free(L); sym_reach("end"); }
/* several constrained vertices: the largest error is reported */
void p23_fix2(void){ int kind=sym_arg("kind",1),j,k; rcurve r; memset(&r,0,sizeof r); r.nc=2; rc_sym(&r.p[0],3,0,0); rc_sym(&r.p[1],2,1,0); plCurve *L=rc_make(&r); int fx[2][3]={{0}}; 
  if(kind==1){ plc_set_fixed(L,0,0,V3(1,1,1)); plc_set_fixed(L,1,1,V3(1,1,1)); fx[0][0]=fx[1][1]=1; } else if(kind==2){ plc_constrain_to_line(L,0,1,2,V3(0,0,2),V3(1,1,0)); plc_constrain_to_line(L,1,0,1,V3(0,0,2),V3(1,1,0)); fx[0][1]=fx[0][2]=fx[1][0]=2; } else { plc_constrain_to_plane(L,0,0,2,V3(0,1,0),5); plc_set_fixed(L,1,1,V3(1,1,1)); fx[0][0]=fx[0][1]=3; fx[1][1]=1; }
  double e=plc_check_cst(L),m=0; int i; for(i=0;i<2;i++) for(j=0;j<r.p[i].nv;j++){ double *x=r.p[i].v[j],s=0; if(fx[i][j]==1) s=(x[0]-1)*(x[0]-1)+(x[1]-1)*(x[1]-1)+(x[2]-1)*(x[2]-1); if(fx[i][j]==2) s=(x[0]-1)*(x[0]-1)+(x[1]-1)*(x[1]-1); if(fx[i][j]==3) s=(x[1]-5)*(x[1]-5); m=s>m?s:m; } CHECK(e>=0,"error is a distance"); NEAR(e*e,m,1e-9,"the largest error is reported");
  plc_fix_cst(L); for(i=0;i<2;i++) for(j=0;j<r.p[i].nv;j++) for(k=0;k<3;k++){ double x=r.p[i].v[j][k]; if(fx[i][j]==1) x=1; if(fx[i][j]==2&&k<2) x=1; if(fx[i][j]==3&&k==1) x=5; r.p[i].v[j][k]=x; } rc_check(L,&r,1e-9); plc_free(L); sym_reach("end"); }
