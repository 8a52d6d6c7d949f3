/* P02: the validity check accepts every consistent diagram and rejects contradictory records */
//BOUND 16 shadows with up to 8 crossings; up to two records (crossing slot, crossing sign, edge end, component entry, component tag, face entry, face orientation, order of two crossings or two faces) overwritten with symbolic values, including out-of-range ones
//JOB p02_one shape=0..14,19 what=0..10
//JOB p02_two shape=1,2,3,7 what=0..10 what2=0..10 time=60
//JOB p02_two shape=4,5,9,11 what=0..10 what2=0..10 time=100 tier=thorough
//JOB p02_zero what=0..8
//JOB p02_tags shape=1,5,6,9,16
#include "diag.h"
static rmap M;
static void corrupt(pd_code_t *pd,int what){ int n=pd->ncross,i,j;
  switch(what){
   case 0: i=sym_choice("cross",0,n-1); j=sym_choice("slot",0,3); pd->cross[i].edge[j]=sym_u32("val"); break;
   case 1: i=sym_choice("cross",0,n-1); pd->cross[i].sign=sym_u8("sgn"); break;
   case 2: i=sym_choice("edge",0,2*n-1); pd->edge[i].head=sym_u32("val"); break;
   case 3: i=sym_choice("edge",0,2*n-1); pd->edge[i].headpos=sym_u32("val"); break;
   case 4: i=sym_choice("edge",0,2*n-1); pd->edge[i].tail=sym_u32("val"); pd->edge[i].tailpos=sym_u32("val"); break;
   case 5: i=sym_choice("comp",0,pd->ncomps-1); j=sym_choice("pos",0,pd->comp[i].nedges-1); pd->comp[i].edge[j]=sym_u32("val"); break;
   case 6: i=sym_choice("comp",0,pd->ncomps-1); pd->comp[i].tag=sym_u8("tag"); break;
   case 7: i=sym_choice("face",0,pd->nfaces-1); j=sym_choice("pos",0,pd->face[i].nedges-1); pd->face[i].edge[j]=sym_u32("val"); break;
   case 8: i=sym_choice("face",0,pd->nfaces-1); j=sym_choice("pos",0,pd->face[i].nedges-1); pd->face[i].orient[j]=sym_range("or",0,1); break;
   case 9: { i=sym_choice("cross",0,n-1); j=sym_choice("cross2",0,n-1); pd_crossing_t t=pd->cross[i]; pd->cross[i]=pd->cross[j]; pd->cross[j]=t; int k; for(k=0;k<2*n;k++){ pd_edge_t *e=&pd->edge[k]; if(e->head==i) e->head=j; else if(e->head==j) e->head=i; if(e->tail==i) e->tail=j; else if(e->tail==j) e->tail=i; } break; }
   case 10: { i=sym_choice("face",0,pd->nfaces-1); j=sym_choice("face2",0,pd->nfaces-1); pd_face_t t=pd->face[i]; pd->face[i]=pd->face[j]; pd->face[j]=t; break; }
  } }
static int face_order_ok(pd_code_t *pd){ int i; for(i=1;i<(int)pd->nfaces;i++) if(pd_face_cmp(&pd->face[i-1],&pd->face[i])>0) return 0; return 1; }
static void verdict(pd_code_t *pd){ int r=(ref_bad(pd)==0)&&face_order_ok(pd); int l=pd_ok(pd); CHECK(l==r,"validity check agrees with an independent check"); sym_reach("end"); }
void p02_one(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,1)); sym_signs(&M,0,2); int i; pd_code_t *pd=mk_pd(&M,0,M.n+sym_choice("slack",0,1)); CHECK(ref_bad(pd)==0,"valid"); CHECK(pd_ok(pd),"consistent diagram is accepted"); corrupt(pd,sym_arg("what",0)); verdict(pd); }
void p02_two(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,0); int i; for(i=0;i<M.n;i++) M.sign[i]=1; pd_code_t *pd=mk_pd(&M,0,M.n); corrupt(pd,sym_arg("what",0)); corrupt(pd,sym_arg("what2",0)); verdict(pd); }
void p02_tags(void){ int i; rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,0); for(i=0;i<M.n;i++) M.sign[i]=0; pd_code_t *pd=mk_pd(&M,0,M.n); for(i=0;i<(int)pd->ncomps&&i<4;i++) pd->comp[i].tag=sym_u8("tag"); verdict(pd); }
void p02_zero(void){ pd_code_t *pd=pd_build_unknot(0); CHECK(ref_bad(pd)==0,"valid"); CHECK(pd_ok(pd),"0-crossing diagram is accepted"); 
  switch(sym_arg("what",0)){ case 0: pd->edge[0].head=sym_u32("v"); break; case 1: pd->edge[0].tail=sym_u32("v"); break; case 2: pd->edge[0].headpos=sym_u32("v"); break; case 3: pd->edge[0].tailpos=sym_u32("v"); break; case 4: pd->comp[0].edge[0]=sym_u32("v"); break; case 5: pd->face[0].edge[0]=sym_u32("v"); break; case 6: pd->face[1].edge[0]=sym_u32("v"); break; case 7: break; case 8: pd->comp[0].tag=sym_range("tag",'A',127); break; }
  verdict(pd); }
