/* P30: Whitten group operations: mirror, reversal, permutation of components */
//BOUND 1..3 components (2..5 vertices, open and closed, with 0, 1 or per-vertex colours) with arbitrary coordinates and colours, all permutations, mirror and reversal combinations, up to four constraint runs of all kinds with arbitrary data; two operations in sequence
//JOB p30_op n=1 q=0 s=0..2
//JOB p30_op n=2 q=0..1 s=0..2
//JOB p30_op n=3 q=0..5 s=0..2
//JOB p30_set q=0..5 c=0..2
//JOB p30_two q=0..5 w=0..5 tier=thorough
//JOB p30_two q=0,3,4 w=0,1,3
#include "curve.h"
static const int P[6][3]={{0,1,2},{1,0,2},{0,2,1},{2,1,0},{1,2,0},{2,0,1}};
/* list in cycle form: each cycle ends with its first element again, the rest is padded */
static int *enc(int n,int q){ int *l=malloc(2*n*sizeof(int)),k=0,i,seen[3]={0}; for(i=0;i<n;i++) if(!seen[i]&&P[q][i]!=i){ int j=i; while(!seen[j]){ seen[j]=1; l[k++]=j; j=P[q][j]; } l[k++]=i; } for(;k<2*n;k++) l[k]=-1; return l; }
static void sh(rcurve *r,int n,int s){ static const int nv[3][3]={{3,4,2},{5,2,3},{4,4,3}},op[3][3]={{0,1,1},{1,1,0},{0,0,1}},cc[3][3]={{3,1,0},{0,2,3},{4,4,1}}; int i; memset(r,0,sizeof *r); r->nc=n; for(i=0;i<n;i++) rc_sym(&r->p[i],nv[s][i],op[s][i],cc[s][i]); }
static void data(double *d){ int k; for(k=0;k<6;k++) d[k]=sym_real("cst"); }
static void cst(plCurve *L,rcurve *r){ double d[6]; data(d); rc_cst(L,r,0,0,2,3,d); data(d); rc_cst(L,r,0,2,1,1,d); if(r->nc>1){ data(d); rc_cst(L,r,1,r->p[1].nv-2,2,2,d); } if(r->nc>2){ data(d); rc_cst(L,r,2,1,1,1,d); } }
static void op(plCurve *L,rcurve *r,int q,int ch){ int n=r->nc,i,j,k,e[3],m=sym_choice("mirror",0,1)?-1:1; int *eps=malloc(n*sizeof(int)); for(i=0;i<n;i++){ e[i]=ch?(sym_choice("reverse",0,1)?-1:1):(i%2?1:-1); eps[i]=e[i]; } int *pl=enc(n,q); plc_whitten(L,m,eps,pl); free(pl); free(eps); rcurve o=*r; for(i=0;i<n;i++){ rcomp a=o.p[P[q][i]],b=a; int nv=a.nv; if(e[i]<0){ for(j=0;j<nv;j++){ memcpy(b.v[j],a.v[nv-1-j],sizeof b.v[j]); memcpy(b.cv[j],a.cv[nv-1-j],sizeof b.cv[j]); b.ck[j]=a.ck[nv-1-j]; if(a.cc>1) memcpy(b.c[j],a.c[nv-1-j],sizeof b.c[j]); } } if(m<0) for(j=0;j<nv;j++){ b.v[j][2]=-b.v[j][2]; if(b.ck[j]) b.cv[j][2]=-b.cv[j][2]; if(b.ck[j]==2) b.cv[j][5]=-b.cv[j][5]; } r->p[i]=b; } }
void p30_op(void){ rcurve r; sh(&r,sym_arg("n",2),sym_arg("s",0)); plCurve *L=rc_make(&r); cst(L,&r); op(L,&r,sym_arg("q",0),1); rc_check(L,&r,0); rc_check_cst(L,&r,0); plc_free(L); sym_reach("end"); }
/* the curve stays a working curve: constraints can be set and removed afterwards */
void p30_set(void){ rcurve r; double d[6]; int c=sym_arg("c",0),v,n; sh(&r,3,0); plCurve *L=rc_make(&r); cst(L,&r); op(L,&r,sym_arg("q",0),0); data(d); v=sym_choice("v",0,r.p[c].nv-1); n=sym_choice("n",1,r.p[c].nv-v); if(sym_choice("set",0,1)) rc_cst(L,&r,c,v,n,3,d); else rc_cst(L,&r,c,v,n,0,d); rc_check(L,&r,0); rc_check_cst(L,&r,0); plCurve *C=plc_copy(L); plc_free(L); rc_check_cst(C,&r,0); plc_free(C); sym_reach("end"); }
void p30_two(void){ rcurve r; sh(&r,3,0); plCurve *L=rc_make(&r); cst(L,&r); op(L,&r,sym_arg("q",0),0); op(L,&r,sym_arg("w",0),1); rc_check(L,&r,0); rc_check_cst(L,&r,0); plc_free(L); sym_reach("end"); }
