/* P09: copies */
//BOUND every connected planar map with <=3 crossings and 22 shadows up to 12 crossings; symbolic signs, tags and identifiers; capacities from exact to exact+5; 0-crossing diagrams
//JOB p09_small n=1..3
//JOB p09_shape shape=0..21
//JOB p09_zero
#include "diag.h"
static rmap M;
static void body(void){ int i,j,k; for(i=0;i<M.n;i++) M.sign[i]=sym_range("sign",0,2); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,2),M.n+sym_choice("slack",0,1)),*q; for(i=0;i<(int)pd->ncomps;i++) pd->comp[i].tag=sym_range("tag",'A','z'); pd->uid=sym_u32("uid"); for(i=0;i<6;i++) pd->hash[i]=sym_range("h",'a','z');
  unsigned mv=pd->MAXVERTS; int how=sym_choice("newsize",0,3); unsigned nv=mv+5; if(how==0) q=pd_copy(pd); else { if(how==1) nv=M.n; else if(how==2) nv=M.n+1; q=pd_copy_newsize(pd,nv); }
  CHECK(q!=NULL&&q!=pd,"a new diagram"); CHECK(pd_same(pd,q),"copy equals the original"); CHECK(q->uid==pd->uid,"identifier copied"); CHECK(strcmp(q->hash,pd->hash)==0,"hash copied");
  if(how==0) CHECK(q->MAXVERTS>=q->ncross&&q->MAXEDGES>=q->nedges&&q->MAXFACES>=q->nfaces&&q->MAXCOMPONENTS>=q->ncomps,"capacity suffices"); else CHECK(q->MAXVERTS>=nv&&q->MAXEDGES>=2*nv&&q->MAXFACES>=nv+2,"requested capacity");
  for(i=0;i<(int)q->MAXVERTS;i++) q->cross[i].edge[3]=0; for(i=0;i<(int)q->MAXEDGES;i++) q->edge[i].head=0; /* the whole capacity is usable */
  for(i=0;i<(int)q->ncomps;i++) for(j=0;j<(int)q->comp[i].nedges;j++) q->comp[i].edge[j]=7777; for(i=0;i<(int)q->nfaces;i++) for(j=0;j<(int)q->face[i].nedges;j++) q->face[i].edge[j]=7777,q->face[i].orient[j]=2;
  sym_assume(1); const char *b=0; { int t=1,x,y; for(x=0;x<(int)pd->ncomps;x++) for(y=0;y<x;y++) t&=(pd->comp[x].tag!=pd->comp[y].tag); if(t) b=ref_bad(pd); } CHECK(b==0,"original unaffected by changes to the copy");
  pd_code_free(&q); CHECK(q==NULL,"free clears the pointer"); CHECK(pd->cross[0].edge[0]<2u*M.n,"original survives"); for(i=0;i<(int)pd->ncomps;i++) CHECK(pd->comp[i].edge[0]<2u*M.n,"original survives"); for(i=0;i<(int)pd->nfaces;i++) CHECK(pd->face[i].edge[0]<2u*M.n,"original survives"); pd_code_free(&pd); pd_code_free(&pd); sym_reach("end"); }
void p09_small(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); body(); }
void p09_shape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,0); body(); }
void p09_zero(void){ pd_code_t *pd=pd_build_unknot(0),*q; pd->comp[0].tag=sym_range("tag",'A','z'); pd->uid=sym_u32("uid"); int how=sym_choice("newsize",0,2); q=how==0?pd_copy(pd):pd_copy_newsize(pd,how==1?1:6); CHECK(ref_bad(q)==0,"copy is consistent"); CHECK(q->comp[0].tag==pd->comp[0].tag,"tag copied"); CHECK(q->uid==pd->uid,"identifier copied"); pd_code_free(&q); CHECK(ref_bad(pd)==0,"original survives"); pd_code_free(&pd); sym_reach("end"); }
