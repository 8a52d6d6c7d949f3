/* P01: regeneration */
//BOUND every connected planar map with <=3 crossings (dart pairing symbolic, forked), 22 named shadows with up to 12 crossings; crossing signs symbolic in {neg,pos,unset}; 4 numberings of edges/crossings; component orientations symbolic
//JOB p01_small n=1..2 var=0..3
//JOB p01_small n=3 var=0..3
//JOB p01_shape shape=0..21 var=0..3
//JOB p01_small n=4 var=0..3 tier=thorough
//JOB p01_cross shape=0..21 var=0..3
#include "diag.h"
static rmap M,R;
static void body(int var,int withedges){
  int i,anyset=0,mv; unsigned flip=0;
  sym_signs(&M,0,2);
  for(i=0;i<M.n;i++) anyset|=(M.sign[i]!=2);
  mv=M.n+(var&1); if(mv<1) mv=1;
  int ep[2*DN],cp[DN]; perm_variant(ep,2*M.n,var); perm_variant(cp,M.n,var?var+1:0);
  pd_code_t *pd=mk_raw(&M,ep,cp,var,mv,withedges);
  pd_regenerate(pd);
  CHECK_VALID(pd,"regenerated diagram is consistent");
  rm_from_pd(&R,pd);
  CHECK(R.ncomps==M.ncomps,"number of components");
  CHECK(rm_iso(&M,&R,0),"regeneration keeps the planar map");
  CHECK(pd->hash[31]==0,"hash terminated");
  if(withedges){ int keeps=rm_iso(&M,&R,M_SIGN|M_ORIENT); int ori=rm_iso(&M,&R,M_SIGN|M_COMPREV); CHECK(keeps|((!anyset)&ori),"signs and orientations are kept when the edges are consistent and a sign is set"); }
  for(i=1;i<(int)pd->ncomps;i++) CHECK(pd->comp[i-1].nedges>=pd->comp[i].nedges,"components longest first");
  for(i=0;i<(int)pd->ncomps;i++) CHECK(pd->comp[i].tag=='A'+i,"tags in order");
  { int j; for(i=0;i<(int)pd->ncross;i++) for(j=1;j<4;j++) CHECK(pd->cross[i].edge[0]<=pd->cross[i].edge[j],"crossing starts at its lowest edge"); }
  /* idempotent */
  if(withedges){ pd_code_t *q=pd_copy(pd); pd_regenerate(q); CHECK_VALID(q,"second regeneration is consistent"); rm_from_pd(&R,q); CHECK(rm_iso(&M,&R,M_COMPREV),"second regeneration keeps the map"); pd_code_free(&q); }
  pd_code_free(&pd); CHECK(pd==NULL,"freed");
  sym_reach("end"); }
void p01_small(void){ int n=sym_arg("n",2),first=sym_arg("first",-1); rm_any(&M,n); if(first>=0){ int h=0,i; for(i=0;i<4*n;i++) h=h*5+M.mate[i]; h=(h<0?-h:h)%10; sym_assume(h==first); }
  int flip=sym_choice("flip",0,3); rm_orient(&M,flip); body(sym_arg("var",0),1); }
void p01_shape(void){ rm_shape(&M,sym_arg("shape",0)); rm_orient(&M,0); int flip=sym_choice("flip",0,(1<<M.ncomps)-1); rm_orient(&M,flip); body(sym_arg("var",0),1); }
/* crossings only: orientation and signs have to be rebuilt / discarded */
void p01_cross(void){ int i; rm_shape(&M,sym_arg("shape",0)); rm_orient(&M,0); body(sym_arg("var",0),0); }
