/* P14: Reidemeister 3 moves and connected sums */
//BOUND triangle flips: every connected planar map with <=3 (thorough 4) crossings and shadows up to 12 crossings, signs symbolic {neg,pos,unset}, every face (also faces that are no triangle); connected sums: all pairs of maps with <=3 crossings together (thorough <=6) and pairs of 8 shadows, every edge pair, signs symbolic; where no crossing at all is signed the diagrams carry no fixed orientation and only the shadow is compared
//JOB p14_r3 n=1..3
//JOB p14_r3shape shape=0..21
//JOB p14_sum n=1 k=1..2
//JOB p14_sum n=2 k=1
//JOB p14_sum n=2 k=2 tier=thorough
//JOB p14_sumshape a=0,1,2,4,9 b=0,1,2
//JOB p14_sumzero n=1..2
//JOB p14_sumzerozero
//JOB p14_r3 n=4 tier=thorough
//JOB p14_sum n=3 k=1..2 tier=thorough
//JOB p14_sum n=3 k=3 tier=thorough
#include "surg.h"
static rmap M,N,A,B,R;
static void r3(void){ static rmap Q,C; int i; sym_signs(&M,0,2); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n); rm_tags(pd); rm_from_pd(&A,pd); int f=sym_choice("f",0,pd->nfaces-1);
  if(pd->face[f].nedges!=3){ CHECK(pd_R3_triangle_flip(pd,f)==0,"a face that is no triangle is refused"); }
  else { int t[3],h[3]; for(i=0;i<3;i++) fdarts(pd,f,i,&t[i],&h[i]); int distinct=t[0]/4!=t[1]/4&&t[1]/4!=t[2]/4&&t[0]/4!=t[2]/4; sym_assume(distinct); pd_code_t *q=pd_R3_triangle_flip(pd,f); CHECK(q!=0,"triangle is flipped"); CHECK_VALID(q,"result of flipping a triangle is consistent");
    int s[4*DN]; for(i=0;i<4*A.n;i++) s[i]=i; for(i=0;i<3;i++){ s[rm_opp(t[i])]=h[i]; s[rm_opp(h[i])]=t[i]; } rm_copy(&Q,&A); for(i=0;i<4*A.n;i++){ int ti=0,j; for(j=0;j<3;j++) if(i==t[j]||i==h[j]) ti=1; if(!ti){ Q.mate[s[i]]=s[A.mate[i]]; } } for(i=0;i<3;i++) rm_join(&Q,rm_opp(h[i]),rm_opp(t[i]));
    rm_from_pd(&R,q); CHECK(rm_iso(&Q,&R,M_SIGN|M_ORIENT),"the strand pairs keep their crossings, met in the opposite order along each strand"); 
    /* flipping the new triangle gives the original back */
    { unsigned g; int back=0; for(g=0;g<q->nfaces;g++) if(q->face[g].nedges==3){ int u[3],v[3]; for(i=0;i<3;i++) fdarts(q,g,i,&u[i],&v[i]); if(u[0]/4==u[1]/4||u[1]/4==u[2]/4||u[0]/4==u[2]/4) continue; pd_code_t *z=pd_R3_triangle_flip(q,g); rm_from_pd(&C,z); back|=rm_iso(&A,&C,M_SIGN|M_ORIENT); pd_code_free(&z); } CHECK(back,"flipping back restores the diagram"); } pd_code_free(&q); }
  CHECK_VALID(pd,"the input is untouched"); rm_from_pd(&C,pd); CHECK(rm_iso(&A,&C,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the input is untouched"); pd_code_free(&pd); sym_reach("end"); }
static void sum(void){ static rmap Q; int i,un=sym_choice("unset",0,1),any=0; sym_signs(&M,un?2:0,2); sym_signs(&N,un?2:0,2); if(!un){ for(i=0;i<M.n;i++) any|=M.sign[i]!=2; for(i=0;i<N.n;i++) any|=N.sign[i]!=2; sym_assume(any); } int v=sym_choice("var",0,1); pd_code_t *pa=mk_pd(&M,v,M.n),*pb=mk_pd(&N,v,N.n); rm_from_pd(&A,pa); rm_from_pd(&B,pb); int ea=sym_choice("ea",0,pa->nedges-1),eb=sym_choice("eb",0,pb->nedges-1);
  pd_code_t *q=pd_connect_sum(pa,ea,pb,eb); CHECK(q!=0,"connected sum exists"); CHECK_VALID(q,"connected sum is consistent"); Q.n=A.n+B.n; Q.ncomps=A.ncomps+B.ncomps-1; for(i=0;i<4*A.n;i++){ Q.mate[i]=A.mate[i]; Q.in[i]=A.in[i]; Q.sign[i/4]=A.sign[i/4]; } for(i=0;i<4*B.n;i++){ int o=4*A.n+i; Q.mate[o]=4*A.n+B.mate[i]; Q.in[o]=B.in[i]; Q.sign[o/4]=B.sign[i/4]; }
  int ta=4*pa->edge[ea].tail+pa->edge[ea].tailpos,ha=4*pa->edge[ea].head+pa->edge[ea].headpos,tb=4*A.n+4*pb->edge[eb].tail+pb->edge[eb].tailpos,hb=4*A.n+4*pb->edge[eb].head+pb->edge[eb].headpos; rm_join(&Q,ta,hb); rm_join(&Q,tb,ha);
  CHECK((int)q->ncomps==Q.ncomps,"one component fewer than both together"); rm_from_pd(&R,q); CHECK(rm_iso(&Q,&R,un?M_SIGN:M_SIGN|M_ORIENT),"connected sum joins the two diagrams at the given edges, keeping signs and orientations");
  CHECK_VALID(pa,"the inputs are untouched"); CHECK_VALID(pb,"the inputs are untouched"); rm_from_pd(&Q,pa); CHECK(rm_iso(&A,&Q,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the inputs are untouched"); rm_from_pd(&Q,pb); CHECK(rm_iso(&B,&Q,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"the inputs are untouched"); pd_code_free(&q); pd_code_free(&pa); pd_code_free(&pb); sym_reach("end"); }
void p14_r3(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); r3(); }
void p14_r3shape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,3)); r3(); }
void p14_sum(void){ rm_any(&M,sym_arg("n",2)); rm_any(&N,sym_arg("k",1)); rm_orient(&M,sym_choice("flip",0,1)); rm_orient(&N,0); sum(); }
void p14_sumshape(void){ rm_shape(&M,sym_arg("a",2)); rm_shape(&N,sym_arg("b",1)); rm_orient(&M,sym_choice("flip",0,1)); rm_orient(&N,0); sum(); }
void p14_sumzero(void){ static rmap Q; rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); sym_signs(&M,0,2); pd_code_t *pd=mk_pd(&M,0,M.n),*u=pd_build_unknot(0); rm_from_pd(&A,pd); int e=sym_choice("e",0,pd->nedges-1); pd_code_t *q=sym_choice("side",0,1)?pd_connect_sum(pd,e,u,0):pd_connect_sum(u,0,pd,e); CHECK(q!=0,"sum with the round unknot"); CHECK_VALID(q,"sum with the round unknot is consistent"); rm_from_pd(&R,q); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT),"sum with the round unknot is the diagram itself"); pd_code_free(&q); pd_code_free(&pd); pd_code_free(&u); sym_reach("end"); }
void p14_sumzerozero(void){ pd_code_t *a=pd_build_unknot(0),*b=pd_build_unknot(0),*q=pd_connect_sum(a,0,b,0); CHECK(q&&q->ncross==0,"sum of round unknots"); CHECK_VALID(q,"sum of round unknots"); sym_reach("end"); }
