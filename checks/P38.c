/* P38: HOMFLY polynomials */
//BOUND every connected planar map with <=3 crossings (4 thorough) and 20 shadows up to 10 crossings, every choice of crossing signs (6 of them in shadows up to 6 crossings, 1 or 2 in larger ones, fixed patterns on the rest), both orientations of the first component, 3 numberings (2 for 3 crossings)
//STUB clock, signal : no time passes
//JOB p38_any n=1..2 var=0..2 flip=0..1
//JOB p38_any n=3 var=0..1 flip=0..1 cost=9
//JOB p38_any n=3 var=2 flip=0..1 tier=thorough
//JOB p38_any n=4 var=1 flip=0..3 tier=thorough
//JOB p38_shape shape=0..11,19 k=6 var=0..1 cost=5
//JOB p38_shape shape=12..15 k=2 var=0..1 cost=9
//JOB p38_shape shape=17,20 k=1 var=1 cost=9
//JOB p38_shape shape=0..17,19..20 k=8 var=2 tier=thorough
//JOB p38_zero
#include "homfly.h"
#ifndef SYM_ENTRY
long clock(void){ return 0; }
void *signal(int s,void *h){ return 0; }
#endif
static rmap M,A,R; static hpoly want,got;
static void homfly(void){ int i,k=sym_arg("k",6); for(i=0;i<M.n;i++) M.sign[i]= i<k? sym_range("sign",0,1) : (i%3==1); pd_code_t *pd=mk_pd(&M,sym_arg("var",0),M.n<2?2:M.n); rm_from_pd(&A,pd); hp_ref(&A,&want);
  char *t=pd_homfly(pd); CHECK(t!=0,"a polynomial is returned"); CHECK(hp_parse(t,&got),"the polynomial is a sum of monomials"); CHECK(hp_eq(&want,&got),"the polynomial is that of the skein relation"); free(t);
  CHECK(ref_bad(pd)==0,"diagram unchanged"); rm_from_pd(&R,pd); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"diagram unchanged"); pd_code_free(&pd); sym_reach("end"); }
void p38_any(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_arg("flip",0)); homfly(); }
void p38_shape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,1)); homfly(); }
void p38_zero(void){ pd_code_t *pd=pd_build_unknot(0); char *t=pd_homfly(pd); CHECK(t!=0,"a polynomial is returned"); CHECK(hp_parse(t,&got),"the polynomial is a sum of monomials"); hp_unlink(&want,1); CHECK(hp_eq(&want,&got),"the polynomial of the unknot is 1"); free(t); pd_code_free(&pd); sym_reach("end"); }
