/* P36: random polygons, closures and self-avoidance */
//BOUND 3..5 edges (self-avoiding: 5..6); the random generator returns an arbitrary value of its range at one of its calls (each in turn) and fixed ones at the others; for self-avoiding polygons up to two trials' worth of random numbers are drawn and a third trial is not followed; closures: open components of 2..3 vertices, alone or beside another component, one vertex moved by an arbitrary amount (total length from below to above what can be closed)
//BOUND outside: the distribution of the polygons; rounding (real arithmetic; sine and cosine are any pair with squares adding up to 1)
//STUB gsl_ran_ugaussian_ratio_method, gsl_rng_uniform, gsl_ran_dir_3d, gsl_ran_flat, plc_xoshiro_uniform : return an arbitrary value of their range (a unit vector) at the call chosen by the job, fixed ones elsewhere
//JOB p36_poly m=0 n=3 q=0..11
//JOB p36_poly m=1 n=3 q=0..5
//JOB p36_poly m=2 n=1..3 q=0..3
//JOB p36_poly m=3 n=1..3 q=0..3
//JOB p36_eq n=3..4 q=0..1 qtime=1000 btime=200
//JOB p36_eq n=5 q=0..1,3 qtime=1000 btime=200
//JOB p36_eq n=5 q=2 tier=thorough
//JOB p36_eqo n=1..3 q=0..2
//JOB p36_close k=0 e=0,2..4 q=0..1
//JOB p36_close k=1..3 e=0..4 q=0..1
//JOB p36_close k=4 e=0,2..3 q=0..1
//JOB p36_close k=5 e=2..3 q=1
//JOB p36_closebad k=0..3 
//JOB p36_sap n=5 q=0..3 qtime=700 btime=200
//JOB p36_sap n=6 q=0..5 tier=thorough qtime=2000 btime=200
//JOB p36_issap k=0..2 d=0..1
//DEFS -fno-inline
#include "curve.h"
#include <gsl/gsl_rng.h>
#include <gsl/gsl_randist.h>
static int ncall,sel=-1,lim=100000;
static double nxt(double a,double b,double fix){ int c=ncall++; if(c>=lim) sym_done(); if(c==sel){ double x=sym_real("rng"); sym_assume(x>=a&&x<=b); return x; } return fix; }
static const double GV[16]={0.75,-1.25,0.5,1.5,-0.25,1,-1,0.25,2,-0.5,1.25,-0.75,0.125,-1.5,0.375,0.625};
static const double UV[12]={0.625,0.25,0.5,0.75,0.375,0.5625,0.4375,0.8125,0.6875,0.125,0.3125,0.9375};
double gsl_ran_ugaussian_ratio_method(const gsl_rng *r){ int c=ncall; (void)r; return nxt(-2,2,GV[c%16]); }
double gsl_rng_uniform(const gsl_rng *r){ int c=ncall; (void)r; return nxt(0.0625,0.9375,UV[c%12]); }
double gsl_ran_flat(const gsl_rng *r,double a,double b){ int c=ncall; (void)r; return nxt(a,b,a+(b-a)*UV[c%12]); }
void gsl_ran_dir_3d(const gsl_rng *r,double *x,double *y,double *z){ static const double D[4][3]={{0.6,0,0.8},{0,-1,0},{-0.48,0.6,0.64},{0,0.8,-0.6}}; int c=ncall; (void)r; double t=nxt(-0.8,0.8,2); if(c==sel){ *x=t; *y=sqrt(0.64-t*t); *z=0.6; } else { *x=D[c%4][0]; *y=D[c%4][1]; *z=D[c%4][2]; } }
void gsl_ran_shuffle(const gsl_rng *r,void *b,size_t n,size_t s){ (void)r;(void)b;(void)n;(void)s; }
int gsl_ran_choose(const gsl_rng *r,void *d,size_t k,void *s,size_t n,size_t z){ (void)r; (void)n; memcpy(d,s,k*z); return 0; }
static double e2(const plc_vector *a,const plc_vector *b){ double x=a->c[0]-b->c[0],y=a->c[1]-b->c[1],z=a->c[2]-b->c[2]; return x*x+y*y+z*z; }
static void wraps(plCurve *L){ int i,k; for(i=0;i<L->nc;i++){ plc_strand *s=&L->cp[i]; if(!s->open) for(k=0;k<3;k++) CHECK(s->vt[-1].c[k]==s->vt[s->nv-1].c[k]&&s->vt[s->nv].c[k]==s->vt[0].c[k],"wrapped vertices"); } }
static void shape(plCurve *L,int nv,int open){ CHECK(L!=NULL,"curve returned"); CHECK(L->nc==1&&L->cp[0].nv==nv&&L->cp[0].open==open&&L->cp[0].cc==0&&L->cst==NULL,"shape of the polygon"); wraps(L); }
static double total(plc_strand *s){ int i,n=s->open?s->nv-1:s->nv; double t=0; for(i=0;i<n;i++) t+=sqrt(e2(&s->vt[i],&s->vt[(i+1)%s->nv])); return t; }
/* m: closed, closed plane, open, open plane */
void p36_poly(void){ int n=sym_arg("n",3),m=sym_arg("m",0),i; sel=sym_arg("q",0); plCurve *L=m==0?plc_random_closed_polygon(0,n):m==1?plc_random_closed_plane_polygon(0,n):m==2?plc_random_open_polygon(0,n):plc_random_open_plane_polygon(0,n);
  shape(L,m<2?n:n+1,m>=2); NEAR(total(&L->cp[0]),2,1e-3,"total length 2"); if(m==1||m==3) for(i=0;i<L->cp[0].nv;i++) NEAR(L->cp[0].vt[i].c[1],L->cp[0].vt[0].c[1],1e-6,"polygon lies in a plane"); plc_free(L); sym_reach("end"); }
/* equilateral closed: unit edges; open: total length 2 */
void p36_eq(void){ int n=sym_arg("n",4),i; sel=sym_arg("q",0); plCurve *L=plc_random_equilateral_closed_polygon(0,n); shape(L,n,0); for(i=0;i<n;i++) NEAR(e2(&L->cp[0].vt[i],&L->cp[0].vt[(i+1)%n]),1,1e-3,"unit edges"); plc_free(L); sym_reach("end"); }
void p36_eqo(void){ int n=sym_arg("n",2),i; sel=sym_arg("q",0); plCurve *L=plc_random_equilateral_open_polygon(0,n); shape(L,n+1,1); for(i=0;i<n;i++) NEAR(e2(&L->cp[0].vt[i],&L->cp[0].vt[i+1]),4.0/(n*n),1e-6,"equal edges"); plc_free(L); sym_reach("end"); }
/* closures: an open component (k: 2 or 3 vertices, alone or with a closed triangle before it / an open edge after it), e extra edges; one coordinate arbitrary */
static void mkopen(rcurve *r,int k,double t){ static const double A[3][3]={{0,0,0},{0.3,0,0.1},{0.3,0.25,0}}; static const double T[3][3]={{1,1,1},{1.125,1,1},{1,1.125,1}}; int c=0,i,j; memset(r,0,sizeof *r); if(k==2){ r->p[c].nv=3; for(i=0;i<3;i++) for(j=0;j<3;j++) r->p[c].v[i][j]=T[i][j]; c++; }
  r->p[c].nv=k==0||k>=4?2:3; r->p[c].open=1; for(i=0;i<r->p[c].nv;i++) for(j=0;j<3;j++) r->p[c].v[i][j]=k>=4?(i&&j==0?(k==4?0.3:-1.4):0):A[i][j]; r->p[c].v[r->p[c].nv-1][0]+=t; c++; if(k==3){ r->p[c].nv=2; r->p[c].open=1; for(i=0;i<2;i++) for(j=0;j<3;j++) r->p[c].v[i][j]=T[i][j]; c++; } r->nc=c; }
void p36_close(void){ int k=sym_arg("k",0),e=sym_arg("e",1),i,j; sel=sym_arg("q",0)?1:-1; double t=sym_real("t"); sym_assume(t>=0&&t<=1); if(sel>=0) t=0.25; rcurve r; mkopen(&r,k,t); int cp=k==2?1:0,nv=r.p[cp].nv,n=nv-1+e; plCurve *L=rc_make(&r),*C=plc_loop_closure(0,cp,L,n); rc_check(L,&r,0);
  double s=0,g; for(i=0;i<r.nc;i++){ rcomp *p=&r.p[i]; int m=p->open?p->nv-1:p->nv; for(j=0;j<m;j++){ double *a=p->v[j],*b=p->v[(j+1)%p->nv]; s+=sqrt((a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2])); } } { double *a=r.p[cp].v[0],*b=r.p[cp].v[nv-1]; g=sqrt((a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2])); }
  sym_assume(s+g<2-1e-9||s+g>2+1e-9||e<2); if(s+g>2+1e-9||e==0||(e==1&&s+g<2-1e-6)){ CHECK(C==NULL,"nothing returned when there is no closure of length 2"); plc_free(L); sym_reach("end"); return; }
  if(e==1&&C==NULL){ plc_free(L); sym_reach("end"); return; }
  CHECK(C!=NULL,"closure returned"); CHECK(C->nc==r.nc,"components of the closure"); for(i=0;i<r.nc;i++) if(i!=cp){ rcomp *p=&r.p[i]; CHECK(C->cp[i].nv==p->nv&&C->cp[i].open==p->open,"other components kept"); for(j=0;j<p->nv;j++) CHECK(C->cp[i].vt[j].c[0]==p->v[j][0]&&C->cp[i].vt[j].c[1]==p->v[j][1]&&C->cp[i].vt[j].c[2]==p->v[j][2],"other components kept"); }
  plc_strand *q=&C->cp[cp]; CHECK(q->nv==n&&!q->open,"closed component of the requested number of edges"); for(j=0;j<nv;j++) for(i=0;i<3;i++) CHECK(q->vt[j].c[i]==r.p[cp].v[j][i],"vertices of the open component come first"); wraps(C); double z=0; for(i=0;i<C->nc;i++) z+=total(&C->cp[i]); NEAR(z,2,1e-3,"total length 2"); plc_free(C); plc_free(L); sym_reach("end"); }
void p36_closebad(void){ rcurve r; int k=sym_arg("k",0); memset(&r,0,sizeof r); r.nc=1; r.p[0].nv=3; r.p[0].open=k!=0; double t=sym_real("t"); sym_assume(t>=0.25&&t<=4); r.p[0].v[1][0]=t; r.p[0].v[2][1]=0.5; plCurve *L=rc_make(&r),*C; if(k==0) C=plc_loop_closure(0,0,L,5); else { sym_assume(t>2); C=plc_loop_closure(0,0,L,k+3); } CHECK(C==NULL,"nothing returned for a closed component or one too long"); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
bool plc_is_sap(plCurve *L);
/* self-avoiding polygons */
static const double SV[2][6]={{0.671875,0.75,0.53125,0.96875},{0.578125,0.125,0.609375,0.09375,0.71875,0.953125}};
static int sapn;
double plc_xoshiro_uniform(uint64_t *st){ int c=ncall; (void)st; return nxt(0.0625,0.9375,SV[sapn-5][c%(2*(sapn-3))]); }
void p36_sap(void){ int n=sapn=sym_arg("n",5),i,j; sel=sym_arg("q",0); lim=4*(n-3); uint64_t st[4]={1,2,3,4}; plCurve *L=plc_random_equilateral_closed_self_avoiding_polygon(st,n); shape(L,n,0); for(i=0;i<n;i++){ NEAR(e2(&L->cp[0].vt[i],&L->cp[0].vt[(i+1)%n]),1,1e-3,"unit edges"); for(j=0;j<i;j++) CHECK(e2(&L->cp[0].vt[i],&L->cp[0].vt[j])>=1-1e-3,"vertices at least one apart"); } plc_free(L); sym_reach("end"); }
/* the test itself: k=0 one component, 1 two components, 2 three; one coordinate arbitrary */
void p36_issap(void){ int k=sym_arg("k",0),d=sym_arg("d",0),i,j,a,b,ok=1; static const double A[7][3]={{0,0,0},{1,0,0},{2,0,0},{0,1.5,0},{1,1.5,0},{3,3,3},{3,4,3}}; rcurve r; memset(&r,0,sizeof r); r.nc=k+1; r.p[0].nv=3; r.p[0].open=1; for(i=0;i<3;i++) memcpy(r.p[0].v[i],A[i],sizeof A[i]); if(k>0){ r.p[1].nv=2; r.p[1].open=1; for(i=0;i<2;i++) memcpy(r.p[1].v[i],A[3+i],sizeof A[i]); } if(k>1){ r.p[2].nv=2; r.p[2].open=1; for(i=0;i<2;i++) memcpy(r.p[2].v[i],A[5+i],sizeof A[i]); }
  double t=sym_real("t"); sym_assume(t>=-4&&t<=4); if(k==0) r.p[0].v[2][d]=t; else if(k==1) r.p[1].v[1][d]=t; else r.p[2].v[0][d]=t-d;
  double m=1e9; for(a=0;a<r.nc;a++) for(i=0;i<r.p[a].nv;i++) for(b=0;b<=a;b++) for(j=0;j<r.p[b].nv;j++){ if(a==b&&j>=i) break; double x=0; int q; for(q=0;q<3;q++) x+=(r.p[a].v[i][q]-r.p[b].v[j][q])*(r.p[a].v[i][q]-r.p[b].v[j][q]); sym_assume(x<1-1e-6||x>1-1e-12); if(x<1-1e-6) ok=0; } (void)m;
  plCurve *L=rc_make(&r); CHECK(plc_is_sap(L)==ok,"self-avoiding exactly when all vertices are at least one apart"); plc_free(L); sym_reach("end"); }
