/* P13: Reidemeister 2 moves */
//BOUND every connected planar map with <=3 (thorough 4) crossings and shadows up to 8 crossings; signs symbolic {neg,pos,unset}; tags other than the default; every bigon removable by the move, every pair of edges of every face
//JOB p13_elim n=2..3
//JOB p13_elimshape shape=1,2,4,5,7,8,9,10,11,12,14,15,16,19
//JOB p13_add n=1..2
//JOB p13_addshape shape=0..5,7,8,9,11,19
//JOB p13_undo n=1..2
//JOB p13_undoshape shape=2,4,9
//JOB p13_elim n=4 tier=thorough
//JOB p13_add n=3 tier=thorough
#include "surg.h"
static rmap M,A,R; static pieces P;
static int overstrand(const rmap *m,int d,int sg){ /* is the strand through dart d over at its crossing, given the sign */ int c=d/4,p; for(p=0;p<4;p++) if(m->in[4*c+p]&&m->in[4*c+((p+1)&3)]) break; int o=sg==1?p:(p+1)&3; return ((d&1)==(o&1)); }
static pd_code_t *start(int lo,int hi){ sym_signs(&M,lo,hi); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n); rm_tags(pd); rm_from_pd(&A,pd); return pd; }
static int mixed;
static void elim(void){ static rmap B; mixed=sym_choice("unset",0,1); pd_code_t *pd=mixed?start(2,2):start(0,1); int f=sym_choice("f",0,pd->nfaces-1); sym_assume(pd->face[f].nedges==2); int t0,h0,t1,h1; fdarts(pd,f,0,&t0,&h0); fdarts(pd,f,1,&t1,&h1); int a=t0/4,b=h0/4; sym_assume(a!=b);
  if(!mixed) { int oa=overstrand(&A,t0,A.sign[a]), ob=overstrand(&A,h0,A.sign[b]); sym_assume(oa==ob); }
  pd_idx_t cr[2]; int sw=sym_choice("swap",0,1); cr[0]=sw?b:a; cr[1]=sw?a:b; char S[DN]; memset(S,0,sizeof S); S[a]=S[b]=1; rm_delete(&A,S,&P);
  int c0=A.comp[t0],c1=A.comp[t1]; pd_idx_t no=99; pd_code_t **out=0; pd_R2_bigon_elimination(pd,cr,&no,&out); CHECK((int)no==P.np&&out!=0,"number of connected pieces"); unsigned i; for(i=0;i<no;i++){ CHECK(out[i]!=0,"piece exists"); CHECK_VALID(out[i],"pieces after removing a bigon are consistent"); }
  if(no==1){ rm_from_pd(&R,out[0]); CHECK(rm_iso(&P.p[0],&R,M_SIGN|M_ORIENT|M_TAG),"removing a bigon removes exactly its two crossings"); }
  else { static rmap R0,R1; rm_from_pd(&R0,out[0]); rm_from_pd(&R1,out[1]); int p0=P.pc[c0],p1=P.pc[c1]; CHECK(p0!=p1,"pieces hold the two strands"); int i00=rm_iso(&P.p[p0],&R0,M_SIGN|M_ORIENT|M_TAG),i11=rm_iso(&P.p[p1],&R1,M_SIGN|M_ORIENT|M_TAG),i01=rm_iso(&P.p[p0],&R1,M_SIGN|M_ORIENT|M_TAG),i10=rm_iso(&P.p[p1],&R0,M_SIGN|M_ORIENT|M_TAG);
    CHECK((i00&i11)|(i01&i10),"the pieces are those of the diagram without the bigon"); if(!mixed){ int ov=overstrand(&A,t0,A.sign[a]); CHECK(ov? (i00&i11):(i01&i10),"the first piece holds the strand on top"); } }
  CHECK_VALID(pd,"the input is untouched"); rm_from_pd(&B,pd); CHECK(rm_iso(&A,&B,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the input is untouched");
  for(i=0;i<no;i++) pd_code_free(&out[i]); free(out); pd_code_free(&pd); sym_reach("end"); }
static void refadd(rmap *r,const rmap *a,const pd_code_t *pd,int f,int k1,int k2){ int t1,h1,t2,h2; rm_copy(r,a); fdarts(pd,f,k1,&t1,&h1); fdarts(pd,f,k2,&t2,&h2); int x=4*r->n,y=x+4; r->n+=2; rm_join(r,t1,x); rm_join(r,x+2,y+2); rm_join(r,y,h1); rm_join(r,t2,y+1); rm_join(r,y+3,x+1); rm_join(r,x+3,h2); r->sign[r->n-1]=r->sign[r->n-2]=2; rm_propagate(r,x); }
static void add(void){ static rmap B,Q; pd_code_t *pd=start(0,2); int f=sym_choice("f",0,pd->nfaces-1),n=pd->face[f].nedges,k=sym_choice("k",0,n-1),l=sym_choice("l",0,n-1); sym_assume(pd->face[f].edge[k]!=pd->face[f].edge[l]); pd_code_t *q=pd_R2_bigon_addition(pd,f,k,l,sym_choice("or",0,1)); CHECK(q!=0,"bigon is added"); CHECK_VALID(q,"result of adding a bigon is consistent"); refadd(&Q,&A,pd,f,k,l); rm_from_pd(&R,q); CHECK(rm_iso(&Q,&R,M_SIGN|M_ORIENT),"adding a bigon pushes one edge across the other inside the face, adding two unsigned crossings");
  CHECK_VALID(pd,"the input is untouched"); rm_from_pd(&B,pd); CHECK(rm_iso(&A,&B,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the input is untouched"); pd_code_free(&q); pd_code_free(&pd); sym_reach("end"); }
static void undo(void){ pd_code_t *pd=start(2,2); int f=sym_choice("f",0,pd->nfaces-1),n=pd->face[f].nedges,k=sym_choice("k",0,n-1),l=sym_choice("l",0,n-1); sym_assume(pd->face[f].edge[k]!=pd->face[f].edge[l]); pd_code_t *q=pd_R2_bigon_addition(pd,f,k,l,0); unsigned g; int found=0; for(g=0;g<q->nfaces;g++) if(q->face[g].nedges==2&&q->edge[q->face[g].edge[0]].head!=q->edge[q->face[g].edge[0]].tail){ pd_idx_t cr[2]={q->edge[q->face[g].edge[0]].head,q->edge[q->face[g].edge[0]].tail},no=0; pd_code_t **out=0; pd_R2_bigon_elimination(q,cr,&no,&out); unsigned i; if(no==1){ rm_from_pd(&R,out[0]); found|=rm_iso(&A,&R,M_ORIENT); } for(i=0;i<no;i++) pd_code_free(&out[i]); free(out); } CHECK(found,"removing the added bigon restores the diagram"); pd_code_free(&q); pd_code_free(&pd); sym_reach("end"); }
#define SM(n_) rm_any(&M,n_); rm_orient(&M,sym_choice("flip",0,1));
#define SH(s_) rm_shape(&M,s_); rm_orient(&M,sym_choice("flip",0,1));
void p13_elim(void){ SM(sym_arg("n",2)) elim(); }
void p13_elimshape(void){ SH(sym_arg("shape",2)) elim(); }
void p13_add(void){ SM(sym_arg("n",2)) add(); }
void p13_addshape(void){ SH(sym_arg("shape",2)) add(); }
void p13_undo(void){ SM(sym_arg("n",2)) undo(); }
void p13_undoshape(void){ SH(sym_arg("shape",2)) undo(); }
