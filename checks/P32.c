/* P32: deleting arcs, doubling the vertices */
//BOUND two components (3..5 vertices, every colour scheme) with arbitrary coordinates and colours, all arcs (for open components also beyond the ends); doubling: edges along fixed directions with arbitrary lengths
//JOB p32_del o=0..1 n=3..5 cc=0..2 c=0..1
//JOB p32_delout o=0..1 n=3..4 cc=0..2
//JOB p32_again o=0..1 cc=0..2
//JOB p32_dbl o=1 n=2..4 cc=0..2 s=0..3
//JOB p32_dbl o=0 n=3..4 cc=0..2 s=1..2
//JOB p32_dbl o=0 n=2 cc=0..2 s=0
//JOB p32_dblst o=1 n=3..4 cc=0..2
#include "curve.h"
static void mk(rcurve *r,int c,int n,int o,int cs){ memset(r,0,sizeof *r); r->nc=2; rc_sym(&r->p[c],n,o,cs==2?n:cs); rc_sym(&r->p[1-c],3,!o,cs==0?1:0); }
/* component c loses the vertices a..b (inclusive, forwards) */
static void keep(const rcomp *p,rcomp *q,int first,int m){ int i,k; memset(q,0,sizeof *q); q->nv=m; q->open=1; q->cc=p->cc>1?m:p->cc; for(i=0;i<m;i++){ int j=(first+i)%p->nv; for(k=0;k<3;k++) q->v[i][k]=p->v[j][k]; if(p->cc>1) for(k=0;k<4;k++) q->c[i][k]=p->c[j][k]; } if(p->cc==1) for(k=0;k<4;k++) q->c[0][k]=p->c[0][k]; }
static void del(rcurve *r,int c,int a,int b){ rcurve o=*r; rcomp *p=&o.p[c]; int i,n=p->nv,open=p->open||n<3; 
  for(i=0;i<r->nc;i++) memset(r->p[i].ck,0,sizeof r->p[i].ck);
  if(open){ if(a>b) return; if(a<0) a=0; if(b>n-1) b=n-1; rcomp x,y; int nx=a>0,ny=b<n-1,k=0; keep(p,&x,0,a); keep(p,&y,b+1,n-1-b); r->nc=0; for(i=0;i<o.nc;i++){ if(i!=c) r->p[r->nc++]=o.p[i]; else { if(nx) r->p[r->nc++]=x; if(ny) r->p[r->nc++]=y; } } return; }
  if(a==b+1||(a<=0&&b>=n-1)){ r->nc=0; for(i=0;i<o.nc;i++) if(i!=c) r->p[r->nc++]=o.p[i]; return; }
  keep(p,&r->p[c],(b+1)%n,a<=b?n-(b-a+1):a-b-1); }
static void cst(plCurve *L,rcurve *r,int c){ double d[6]={1,2,3,4,5,6}; rc_cst(L,r,c,0,2,3,d); rc_cst(L,r,1-c,1,1,1,d); }
static void run(int lo,int out){ rcurve r; int c=sym_arg("c",0),n=sym_arg("n",4); mk(&r,c,n,sym_arg("o",0),sym_arg("cc",0)); plCurve *L=rc_make(&r); cst(L,&r,c); rcurve o=r; int a,b; if(!out){ a=sym_choice("from",0,n-1); b=sym_choice("to",0,n-1); } else { a=sym_choice("from",-2,n-1); b=sym_choice("to",0,n+2); sym_assume(a<0||b>=n); if(!r.p[c].open) sym_assume(a<=0&&b>=n-1); } plCurve *N=plc_delete_arc(L,c,a,b); rc_check(L,&o,0); rc_check_cst(L,&o,0); plc_free(L); del(&r,c,a,b); rc_check(N,&r,0); CHECK(N->cst==0,"no constraints are left"); plc_free(N); sym_reach("end"); }
void p32_del(void){ run(0,0); }
void p32_delout(void){ run(0,1); }
/* the result is a working curve: copy it, delete again */
void p32_again(void){ rcurve r; mk(&r,0,5,sym_arg("o",0),sym_arg("cc",0)); plCurve *L=rc_make(&r); int a=sym_choice("a",0,4),b=sym_choice("b",0,4); if(r.p[0].open) sym_assume(a<=b); sym_assume(!(a==b+1||(a==0&&b==4))); plCurve *N=plc_delete_arc(L,0,a,b); plc_free(L); del(&r,0,a,b); int m=r.p[0].nv,x=sym_choice("x",0,m-1),y=sym_choice("y",0,m-1); sym_assume(x<=y); plCurve *C=plc_copy(N); plc_free(N); rc_check(C,&r,0); plCurve *D=plc_delete_arc(C,0,x,y); plc_free(C); del(&r,0,x,y); rc_check(D,&r,0); plc_free(D); sym_reach("end"); }
/* doubling: each vertex is replaced by a point on the edge before it and one on the edge after it, equally far from it */
static double sq(const double *a,const double *b){ double x=a[0]-b[0],y=a[1]-b[1],z=a[2]-b[2]; return x*x+y*y+z*z; }
static void onseg(const double *a,const double *b,const plc_vector *q,const char *m){ double u[3],w[3]; int k; for(k=0;k<3;k++){ u[k]=b[k]-a[k]; w[k]=q->c[k]-a[k]; } for(k=0;k<3;k++) NEAR(u[(k+1)%3]*w[(k+2)%3],u[(k+2)%3]*w[(k+1)%3],1e-6,m); double d=0,l=0; for(k=0;k<3;k++){ d+=u[k]*w[k]; l+=u[k]*u[k]; } CHECK(d>=-1e-6&&d<=l+1e-6,m); }
static void chk(const plCurve *L,const plCurve *N,const rcurve *r){ int c,i,k; CHECK(N->nc==r->nc,"number of components"); for(c=0;c<r->nc;c++){ const rcomp *p=&r->p[c]; int n=p->nv,op=p->open||n<3; const plc_strand *s=&N->cp[c]; CHECK(s->nv==2*n,"twice the vertices"); CHECK(!!s->open==op,"open or closed"); CHECK(s->cc==(p->cc>1?2*n:p->cc),"number of colours"); for(i=0;i<s->cc;i++){ const double *q=p->c[p->cc>1?i/2:0]; CHECK(s->clr[i].r==q[0]&&s->clr[i].g==q[1]&&s->clr[i].b==q[2]&&s->clr[i].alpha==q[3],"colour of the original vertex"); }
  for(i=0;i<n;i++){ const plc_vector *a=&s->vt[2*i],*b=&s->vt[2*i+1]; if(op&&i==0){ for(k=0;k<3;k++) NEAR(a->c[k],p->v[0][k],1e-9,"an open component keeps its first vertex"); onseg(p->v[0],p->v[1],b,"new vertex on its edge"); } else if(op&&i==n-1){ for(k=0;k<3;k++) NEAR(b->c[k],p->v[n-1][k],1e-9,"an open component keeps its last vertex"); onseg(p->v[n-2],p->v[n-1],a,"new vertex on its edge"); } else { const double *u=p->v[(i+n-1)%n],*v=p->v[i],*w=p->v[(i+1)%n]; onseg(u,v,a,"new vertex on its edge"); onseg(v,w,b,"new vertex on its edge"); NEAR(sq(a->c,v),sq(b->c,v),1e-6,"both new vertices equally far from the old one"); } }
  for(k=0;k<3;k++){ CHECK(s->vt[-1].c[k]==s->vt[op?1:2*n-1].c[k],"wrap-around vertices"); CHECK(s->vt[2*n].c[k]==s->vt[op?2*n-2:0].c[k],"wrap-around vertices"); } } }
static const double D[4][4][3]={{{0,0,0},{1,2,2},{2,-1,2},{-6,2,3}},{{0,0,0},{3,0,0},{0,4,0},{-3,0,0}},{{0,0,0},{3,4,0},{3,-4,0},{-3,-4,0}},{{0,0,0},{0,4,3},{0,4,-3},{2,1,2}}};
static void colours(rcomp *p){ int i,k; for(i=0;i<p->cc;i++) for(k=0;k<4;k++) p->c[i][k]=sym_real("clr"); }
void p32_dbl(void){ rcurve r; int n=sym_arg("n",3),s=sym_arg("s",0),cs=sym_arg("cc",0),i,k; memset(&r,0,sizeof r); r.nc=2; rcomp *p=&r.p[0]; p->nv=n; p->open=sym_arg("o",0); p->cc=cs==2?n:cs; colours(p); double h=sym_real("size"); sym_assume(h>=0.5&&h<=20); double x[3]; for(k=0;k<3;k++){ x[k]=k-1; if(p->open){ x[k]=sym_real("x"); sym_assume(x[k]>=-20&&x[k]<=20); } } for(i=0;i<n;i++) for(k=0;k<3;k++) p->v[i][k]=(i?p->v[i-1][k]:x[k])+h*D[s][i][k]; rc_sym(&r.p[1],2,1,0); for(i=0;i<2;i++) for(k=0;k<3;k++) sym_assume(r.p[1].v[i][k]<=20&&r.p[1].v[i][k]>=-20); plCurve *L=rc_make(&r); plCurve *N=plc_double_verts(L); rc_check(L,&r,0); chk(L,N,&r); plc_free(L); plc_free(N); sym_reach("end"); }
/* straight pieces */
void p32_dblst(void){ rcurve r; int n=sym_arg("n",3),cs=sym_arg("cc",0),i,k; memset(&r,0,sizeof r); r.nc=1; rcomp *p=&r.p[0]; p->nv=n; p->open=1; p->cc=cs==2?n:cs; colours(p); double t=0; for(i=1;i<n;i++){ double h=sym_real("h"); sym_assume(h>=0.5&&h<=9); t+=h; p->v[i][0]=t; } plCurve *L=rc_make(&r); plCurve *N=plc_double_verts(L); chk(L,N,&r); plc_free(L); plc_free(N); sym_reach("end"); }
