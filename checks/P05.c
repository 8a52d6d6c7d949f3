/* P05: packed binary form */
//BOUND every connected planar map with <=3 crossings and 22 shadows up to 12 crossings (2-strand closures up to 32); all-unset signs, or symbolic signs in {neg,pos}; all component orientations; bit strings of every length 1..70 with symbolic bits at the ends and around the word boundary; edge indices symbolic for crossing counts 1..70, 127..129, 255..257, 1023..1025
//JOB p05_small n=1..3
//JOB p05_small n=4 tier=thorough
//JOB p05_shape shape=0..21
//JOB p05_torus n=13..17,31..32
//JOB p05_torus n=18..30 tier=thorough
//JOB p05_zero
//JOB p05_bits
//JOB p05_idx lo=1 hi=70
//JOB p05_idx lo=127 hi=129
//JOB p05_idx lo=255 hi=257
//JOB p05_idx lo=1023 hi=1025
#include "diag.h"
#include "pd_pack.h"
static rmap M,R; static int LIM=7;
static void body(int var){ int i,unset=sym_choice("unset",0,1); if(unset) for(i=0;i<M.n;i++) M.sign[i]=2; else for(i=0;i<M.n;i++) M.sign[i]= i<LIM? sym_range("sign",0,1) : (i%3==0);
  pd_code_t *pd=mk_pd(&M,var,M.n); unsigned len=0; unsigned *b=pd_pack(pd,&len);
  unsigned ib=0; while((1u<<ib)<2u*M.n) ib++; unsigned bits=M.n*(4+4*ib+(unset?0:1)); CHECK(len==1+(bits+31)/32,"packed length"); CHECK((int)b[0]==(unset?M.n:-M.n),"first word holds the crossing count and whether signs are stored");
  pd_code_t *q=pd_unpack(b); CHECK_VALID(q,"unpacked diagram is consistent"); rm_from_pd(&R,q); static rmap A; rm_from_pd(&A,pd);
  CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT),"unpacked diagram is the packed one"); CHECK(pd_ok(pd),"packing leaves the diagram alone"); free(b); pd_code_free(&pd); pd_code_free(&q); sym_reach("end"); }
void p05_small(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); body(sym_choice("var",0,1)); }
void p05_shape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,M.n>8?1:7)); body(sym_choice("var",0,2)); }
void p05_torus(void){ int n=sym_arg("n",13),i; LIM=3; rm_torus2(&M,n); rm_orient(&M,sym_choice("flip",0,1)); body(sym_choice("var",0,1)); }
void p05_bits(void){ int n=sym_choice("len",1,70),i; unsigned a[70]; for(i=0;i<n;i++) a[i]= (i<4||i==31||i==32||i>=n-3)? sym_range("bit",0,1) : ((i*7+n)%3==0); unsigned k=0; unsigned *p=pd_packbitstring(a,n,&k); CHECK(k==(unsigned)(n+31)/32,"packed words"); unsigned *u=pd_unpackbitstring(p,n); int ok=1; for(i=0;i<n;i++) ok&=(u[i]==a[i]); CHECK(ok,"bit string round trip"); free(p); free(u); sym_reach("end"); }
void p05_idx(void){ int n=sym_choice("ncross",sym_arg("lo",1),sym_arg("hi",70)); unsigned ib=0,i; while((1u<<ib)<2u*n) ib++; CHECK(pd_indexbits(n)==ib,"index width"); CHECK(pd_packbits(n,SIGNED_CROSSINGS)==n*(5+4*ib)&&pd_packbits(n,UNSIGNED_CROSSINGS)==n*(4+4*ib),"total width"); unsigned e=sym_range("edge",0,2*n-1); unsigned *b=pd_idx_bitencode(e,n); for(i=0;i<ib;i++) CHECK(b[i]<=1,"bits"); CHECK(pd_idx_bitdecode(b,n)==e,"index round trip"); free(b); sym_reach("end"); }
void p05_zero(void){ pd_code_t *p=pd_build_unknot(0); p->comp[0].tag=sym_range("tag",'A','Z'); unsigned len=0; unsigned *b=pd_pack(p,&len); CHECK(len==1&&b[0]==0,"packed 0-crossing diagram"); pd_code_t *q=pd_unpack(b); CHECK_VALID(q,"unpacked 0-crossing diagram is consistent"); free(b); pd_code_free(&p); pd_code_free(&q); sym_reach("end"); }
