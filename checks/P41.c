/* P41: tangles in diagrams */
//BOUND every tangle with 2 or 4 boundary edges (6 in some) in every diagram of <=3 crossings and in 7 diagrams up to 6 crossings (4 crossings, 6 and 8 boundary edges thorough), two numberings and orientations; one wrong entry in the boundary
//JOB p41_any n=2..3 k=2,4 var=0..1
//JOB p41_any n=4 k=2 var=0
//JOB p41_shape s=2,4,5,7,9,11 k=4
//JOB p41_shape s=7,9 k=2
//JOB p41_shape s=4,9 k=6
//JOB p41_kink w=0..3
//JOB p41_any n=4 k=4 var=0 tier=thorough
//JOB p41_shape s=6,8,19 k=2,4,6 tier=thorough
//JOB p41_shape s=5,11 k=6,8 tier=thorough
//JOB p41_bad what=0..1 s=2,4
//JOB p41_bad what=0..2 s=9
#include "tangle.h"
static rmap M,A,R; static pd_code_t *pd; static pd_tangle_t *t;
static void get(int var){ int i; for(i=0;i<M.n;i++) M.sign[i]=1; pd=mk_pd(&M,var,M.n); rm_from_pd(&A,pd); tg_faces(&A,pd); }
static void judge(int k){ sym_assume(tg_choose(&A,k)); CHECK(tg_fill(&A),"(reference) a loop has two sides"); t=tg_make(&A); if(sym_choice("err",0,1)){ int e=0; pd_regenerate_tangle_err(pd,t,&e); CHECK(e==0,"no error"); } else pd_regenerate_tangle(pd,t); CHECK(tg_bad(&A,t)==0,"orientations, strands, inner crossings and inner edges are those of the disc"); CHECK(pd_tangle_ok(pd,t),"the tangle is accepted"); int i; for(i=0;i<k;i++) CHECK(pd_tangle_bdy_or(pd,t,t->edge[i])==t->edge_bdy_or[i],"orientation of a boundary edge");
  pd_regenerate_tangle(pd,t); CHECK(tg_bad(&A,t)==0,"regenerating again changes nothing"); CHECK(ref_bad(pd)==0,"diagram unchanged"); rm_from_pd(&R,pd); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"diagram unchanged"); pd_tangle_free(&t); pd_code_free(&pd); sym_reach("end"); }
void p41_any(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,1)); get(sym_arg("var",0)); judge(sym_arg("k",4)); }
void p41_shape(void){ rm_shape(&M,sym_arg("s",2)); rm_orient(&M,sym_choice("flip",0,3)); get(0); judge(sym_arg("k",4)); }
/* a closed component with a kink inside the tangle: strands 1,2 of a braid closure, the first with extra kinks */
static void kink(rmap *m,int d){ /* a loop on the edge at dart d */ int e=m->mate[d],c=4*m->n; m->n++; m->mate[d]=c; m->mate[c]=d; m->mate[c+2]=c+3; m->mate[c+3]=c+2; m->mate[c+1]=e; m->mate[e]=c+1; }
static void kink2(rmap *m,int d){ int e=m->mate[d],c=4*m->n; m->n++; m->mate[d]=c; m->mate[c]=d; m->mate[c+2]=c+1; m->mate[c+1]=c+2; m->mate[c+3]=e; m->mate[e]=c+3; }
void p41_kink(void){ int w=sym_arg("w",0),d=sym_choice("at",0,7),f; rm_shape(&M,1); if(w&1) kink(&M,d); else kink2(&M,d); for(f=0;f<8;f++) if(f/4==d/4&&((f^d)&1)) break; if(w&2) kink(&M,f); else kink2(&M,f); sym_assume(rm_planar(&M)); rm_orient(&M,sym_choice("flip",0,3)); get(0); judge(2); }
void p41_bad(void){ int w=sym_arg("what",0),e=0,i,j; rm_shape(&M,sym_arg("s",2)); rm_orient(&M,0); get(0); sym_assume(tg_choose(&A,w==2?2:4)); tg_fill(&A); t=tg_make(&A); i=sym_choice("i",0,t->nedges-1); if(w==0){ j=sym_choice("j",0,t->nedges-1); sym_assume(i!=j); t->edge[i]=t->edge[j]; } else if(w==1){ unsigned f=sym_range("face",0,pd->nfaces-1),q,on=0; f=sym_concretize(f); for(q=0;q<pd->face[f].nedges;q++) if(pd->face[f].edge[q]==t->edge[i]) on=1; sym_assume(!on); t->face[i]=f; } else t->nedges=sym_choice("ne",0,1)? pd->nedges+1 : 0; pd_regenerate_tangle_err(pd,t,&e); CHECK(e!=0,"a loop that is not one is reported"); sym_reach("end"); }
