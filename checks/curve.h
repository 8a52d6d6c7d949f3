/* reference model of curves: components with closure, vertices, colours, per-vertex constraints */
#ifndef CURVE_H
#define CURVE_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <math.h>
#include "plCurve.h"
#include "sym.h"
#define MC 5
#define MV 9
typedef struct { int nv,open,cc; double v[MV][3]; double c[MV][4]; int ck[MV]; double cv[MV][6]; } rcomp;   /* ck: 0 none, 1 fixed, 2 line, 3 plane */
typedef struct { int nc; rcomp p[MC]; } rcurve;
static double deq(double a,double b){ return a==b; }
/* arbitrary component; colours: 0, 1 or one per vertex */
static void rc_sym(rcomp *p,int nv,int open,int cc){ int i,j; memset(p,0,sizeof(*p)); p->nv=nv; p->open=open; p->cc=cc; for(i=0;i<nv;i++) for(j=0;j<3;j++) p->v[i][j]=sym_real("x"); for(i=0;i<cc;i++) for(j=0;j<4;j++) p->c[i][j]=sym_real("clr"); }
static plCurve *rc_make(const rcurve *r){ int nv[MC],cc[MC],i,j,k; bool op[MC]; for(i=0;i<r->nc;i++){ nv[i]=r->p[i].nv; cc[i]=r->p[i].cc; op[i]=r->p[i].open; } plCurve *L=plc_new(r->nc,nv,op,cc); for(i=0;i<r->nc;i++){ for(j=0;j<nv[i];j++) for(k=0;k<3;k++) L->cp[i].vt[j].c[k]=r->p[i].v[j][k]; for(j=0;j<cc[i];j++){ L->cp[i].clr[j].r=r->p[i].c[j][0]; L->cp[i].clr[j].g=r->p[i].c[j][1]; L->cp[i].clr[j].b=r->p[i].c[j][2]; L->cp[i].clr[j].alpha=r->p[i].c[j][3]; } } plc_fix_wrap(L); return L; }
#define RC_EXACT 0
/* compare; tol==0 means exactly equal */
static int rc_num(double a,double b,double tol,const char *m){ if(tol==0) CHECK(a==b,m); else NEAR(a,b,tol,m); return 1; }
static void rc_check(const plCurve *L,const rcurve *r,double tol){ int i,j,k; CHECK(L->nc==r->nc,"number of components"); for(i=0;i<r->nc;i++){ const rcomp *p=&r->p[i]; const plc_strand *s=&L->cp[i]; int op=p->open||p->nv<3; CHECK(s->nv==p->nv,"vertices of each component"); CHECK(!!s->open==op,"open or closed"); CHECK(s->cc==p->cc,"number of colours"); 
    for(j=0;j<p->nv;j++) for(k=0;k<3;k++) rc_num(s->vt[j].c[k],p->v[j][k],tol,"vertex coordinates");
    for(k=0;k<3;k++){ if(op){ if(p->nv>=2){ rc_num(s->vt[-1].c[k],p->v[1][k],tol,"wrap-around vertex before the start"); rc_num(s->vt[p->nv].c[k],p->v[p->nv-2][k],tol,"wrap-around vertex past the end"); } } else { rc_num(s->vt[-1].c[k],p->v[p->nv-1][k],tol,"wrap-around vertex before the start"); rc_num(s->vt[p->nv].c[k],p->v[0][k],tol,"wrap-around vertex past the end"); } }
    for(j=0;j<p->cc;j++){ rc_num(s->clr[j].r,p->c[j][0],tol,"red"); rc_num(s->clr[j].g,p->c[j][1],tol,"green"); rc_num(s->clr[j].b,p->c[j][2],tol,"blue"); rc_num(s->clr[j].alpha,p->c[j][3],tol,"alpha"); } } }
/* constraints: every vertex has exactly the constraint the model says; the list is a sorted list of disjoint runs in range */
static void rc_check_cst(plCurve *L,const rcurve *r,double tol){ int i,j,k; const plc_constraint *c; 
  for(c=L->cst;c;c=c->next){ CHECK(c->cmp>=0&&c->cmp<r->nc,"constraint on an existing component"); CHECK(c->vert>=0&&c->num_verts>=1&&c->vert+c->num_verts<=r->p[c->cmp].nv,"constraint on existing vertices"); }
  for(i=0;i<r->nc;i++) for(j=0;j<r->p[i].nv;j++){ plc_constraint *f=0; int n=0; for(c=L->cst;c;c=c->next) if(c->cmp==i&&c->vert<=j&&j<c->vert+c->num_verts) n++; CHECK(n<=1,"at most one constraint per vertex"); int is=plc_is_constrained(L,i,j,&f); CHECK(is==(r->p[i].ck[j]!=0),"exactly the constrained vertices are constrained"); if(is){ CHECK(f!=0,"the constraint is reported"); int kd=f->kind==fixed?1:f->kind==line?2:f->kind==plane?3:9; CHECK(kd==r->p[i].ck[j],"kind of constraint"); for(k=0;k<(kd==2?6:kd==3?4:3);k++) rc_num(f->vect[k/3].c[k%3],r->p[i].cv[j][k],tol,"constraint data"); } } }
static plc_vector V3(double a,double b,double c){ plc_vector v; v.c[0]=a; v.c[1]=b; v.c[2]=c; return v; }
/* constraint op on both; kind 0 unconstrain, 1 fixed(n==1), 2 line, 3 plane */
static void rc_cst(plCurve *L,rcurve *r,int cmp,int v,int n,int kind,const double d[6]){ int j,k; if(L){ if(kind==0) plc_unconstrain(L,cmp,v,n); else if(kind==1) plc_set_fixed(L,cmp,v,V3(d[0],d[1],d[2])); else if(kind==2) plc_constrain_to_line(L,cmp,v,n,V3(d[0],d[1],d[2]),V3(d[3],d[4],d[5])); else plc_constrain_to_plane(L,cmp,v,n,V3(d[0],d[1],d[2]),d[3]); }
  for(j=v;j<v+n;j++){ r->p[cmp].ck[j]=kind; for(k=0;k<6;k++) r->p[cmp].cv[j][k]=d[k]; } }
#endif
