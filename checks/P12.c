/* P12: Reidemeister 1 moves and simplification */
//BOUND every connected planar map with <=3 (thorough 4) crossings and shadows up to 12 crossings; signs symbolic {neg,pos,unset}; tags other than the default; every monogon, every face and edge on it; every orientation of the first two components
//JOB p12_del n=1..3
//JOB p12_delshape shape=0,3,7,10,21
//JOB p12_add n=1..2
//JOB p12_addshape shape=0..12,14..17,19
//JOB p12_simp n=1..3
//JOB p12_simpshape shape=0..21
//JOB p12_zero
//JOB p12_undo n=1..2
//JOB p12_undoshape shape=0..9,11
//JOB p12_del n=4 tier=thorough
//JOB p12_add n=3..4 tier=thorough
//JOB p12_simp n=4 tier=thorough
//JOB p12_undo n=3 tier=thorough
#include "surg.h"
static rmap M,A,R; static pieces P;
static pd_code_t *start(void){ sym_signs(&M,0,2); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n); rm_tags(pd); rm_from_pd(&A,pd); return pd; }
static int monogon(const rmap *m,int c){ int j; for(j=0;j<4;j++) if(m->mate[4*c+j]==4*c+((j+1)&3)) return 1; return 0; }
static void del(void){ pd_code_t *pd=start(); static rmap B; int c=sym_choice("cross",0,M.n-1); sym_assume(monogon(&A,c)); char S[DN]; memset(S,0,sizeof S); S[c]=1; rm_delete(&A,S,&P);
  sym_assume(P.np==1); pd_code_t *q=pd_R1_loopdeletion(pd,c); CHECK(q!=0,"loop is deleted"); CHECK_VALID(q,"result of deleting a loop is consistent"); rm_from_pd(&R,q); CHECK(rm_iso(&P.p[0],&R,M_SIGN|M_ORIENT|M_TAG),"deleting a loop removes exactly that crossing");
  CHECK_VALID(pd,"the input is untouched"); rm_from_pd(&B,pd); CHECK(rm_iso(&A,&B,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the input is untouched"); pd_code_free(&q); pd_code_free(&pd); sym_reach("end"); }
static void refadd(rmap *r,const rmap *a,const pd_code_t *pd,int f,int k){ int t,h; rm_copy(r,a); int n=r->n++; fdarts(pd,f,k,&t,&h); int b=4*n; rm_join(r,t,b); rm_join(r,b+2,b+3); rm_join(r,b+1,h); r->sign[n]=2; rm_propagate(r,b); }
static void add(void){ pd_code_t *pd=start(); static rmap B,Q; int f=sym_choice("f",0,pd->nfaces-1),k=sym_choice("k",0,pd->face[f].nedges-1); pd_code_t *q=pd_R1_loop_addition(pd,f,k); CHECK(q!=0,"loop is added"); CHECK_VALID(q,"result of adding a loop is consistent"); refadd(&Q,&A,pd,f,k); rm_from_pd(&R,q); CHECK(rm_iso(&Q,&R,M_SIGN|M_ORIENT),"adding a loop puts one unsigned crossing on that edge, the loop inside that face");
  CHECK_VALID(pd,"the input is untouched"); rm_from_pd(&B,pd); CHECK(rm_iso(&A,&B,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the input is untouched"); pd_code_free(&q); pd_code_free(&pd); sym_reach("end"); }
static void simp(void){ pd_code_t *pd=start(); static rmap B; pd_code_t *q=pd_simplify(pd); CHECK(q!=0,"simplified"); CHECK_VALID(q,"result of simplifying is consistent"); rm_from_pd(&R,q); unsigned f; if(q->ncross>0) for(f=0;f<q->nfaces;f++) CHECK(q->face[f].nedges!=1,"no loop is left");
  /* deloop the reference: the order does not matter */
  rm_copy(&B,&A); for(;;){ int c,m=-1; for(c=0;c<B.n;c++) if(monogon(&B,c)) { m=c; break; } if(m<0) break; char S[DN]; memset(S,0,sizeof S); S[m]=1; rm_delete(&B,S,&P); rm_copy(&B,&P.p[0]); B.ncomps=A.ncomps; }
  CHECK(rm_iso(&B,&R,M_SIGN|M_ORIENT|M_TAG),"simplifying removes exactly the loops"); rm_from_pd(&B,pd); CHECK(rm_iso(&A,&B,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the input is untouched"); pd_code_free(&q); pd_code_free(&pd); sym_reach("end"); }
static void undo(void){ pd_code_t *pd=start(); int f=sym_choice("f",0,pd->nfaces-1),k=sym_choice("k",0,pd->face[f].nedges-1); unsigned i; pd_code_t *q=pd_R1_loop_addition(pd,f,k); int found=0; rm_from_pd(&M,q); for(i=0;i<q->ncross;i++) if(monogon(&M,i)){ pd_code_t *b=pd_R1_loopdeletion(q,i); CHECK_VALID(b,"adding then deleting a loop gives a consistent diagram"); rm_from_pd(&R,b); found|=rm_iso(&A,&R,M_SIGN|M_ORIENT); pd_code_free(&b); } CHECK(found,"deleting the added loop restores the diagram"); pd_code_free(&q); pd_code_free(&pd); sym_reach("end"); }
#define SM(n_) rm_any(&M,n_); rm_orient(&M,sym_choice("flip",0,3));
#define SH(s_) rm_shape(&M,s_); rm_orient(&M,sym_choice("flip",0,1));
void p12_del(void){ SM(sym_arg("n",2)) del(); }
void p12_delshape(void){ SH(sym_arg("shape",2)) del(); }
void p12_add(void){ SM(sym_arg("n",2)) add(); }
void p12_addshape(void){ SH(sym_arg("shape",2)) add(); }
void p12_simp(void){ SM(sym_arg("n",2)) simp(); }
void p12_simpshape(void){ SH(sym_arg("shape",2)) simp(); }
void p12_undo(void){ SM(sym_arg("n",2)) undo(); }
void p12_undoshape(void){ SH(sym_arg("shape",2)) undo(); }
void p12_zero(void){ pd_code_t *u=pd_build_unknot(0); pd_code_t *q=pd_R1_loop_addition(u,sym_choice("f",0,1),0); CHECK(q&&q->ncross==1,"loop on the round unknot"); CHECK_VALID(q,"loop on the round unknot"); pd_code_t *s=pd_simplify(u); CHECK(s&&s->ncross==0,"the round unknot is simple"); CHECK_VALID(s,"the round unknot is simple"); pd_code_t *b=pd_R1_loopdeletion(q,0); CHECK(b&&b->ncross==0,"unknot again"); CHECK_VALID(b,"unknot again"); sym_reach("end"); }
