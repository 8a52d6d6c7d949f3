/* P06: the hash is an invariant of the diagram */
//BOUND every connected planar map with <=3 crossings (4 thorough) and 22 shadows up to 12 crossings (2-strand closures up to 32, 3-strand ones with a face of up to 11 edges); signs and tags symbolic; every orientation of up to 3 components, mirror image, 3 fixed renumberings each with rotated crossing records
//JOB p06_small n=1..3
//JOB p06_small n=4 tier=thorough
//JOB p06_shape shape=0..21
//JOB p06_torus n=13..18,31..32
//JOB p06_braid a=2..7 b=1..3
//JOB p06_zero
#include "diag.h"
static rmap M,N;
static void mirror(rmap *m){ /* reverse the cyclic order at every crossing */ static rmap t; int d; t=*m; for(d=0;d<4*m->n;d++){ int e=(d&3)==1?d+2:(d&3)==3?d-2:d, f=t.mate[d]; f=(f&3)==1?f+2:(f&3)==3?f-2:f; m->mate[e]=f; } }
static int okhash(const pd_code_t *p){ int i; for(i=0;i<PD_HASHSIZE&&p->hash[i];i++){ int c=p->hash[i]; if(!((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='+'||c=='/'||c=='=')) return 0; } return i>0&&i<PD_HASHSIZE; }
static void body(int lim){ int i; rm_orient(&M,0); N=M; if(sym_choice("mirror",0,1)) mirror(&N); rm_orient(&N,sym_choice("flip",0,lim)); for(i=0;i<M.n;i++){ M.sign[i]=2; N.sign[i]= i<8? sym_range("sign",0,2) : 1; }
  pd_code_t *a=mk_pd(&M,0,M.n),*b=mk_pd(&N,sym_choice("var",1,3),M.n+sym_choice("slack",0,1)); CHECK(okhash(a)&&okhash(b),"hash is a printable, terminated string"); CHECK(memcmp(a->hash,b->hash,PD_HASHSIZE)==0,"isomorphic diagrams have the same hash");
  for(i=0;i<(int)b->ncomps;i++) b->comp[i].tag=sym_range("tag",'A','z'); pd_regenerate_hash(b); CHECK(memcmp(a->hash,b->hash,PD_HASHSIZE)==0,"the hash does not depend on tags"); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
void p06_small(void){ rm_any(&M,sym_arg("n",2)); body(3); }
void p06_shape(void){ rm_shape(&M,sym_arg("shape",2)); body(3); }
void p06_torus(void){ rm_torus2(&M,sym_arg("n",13)); body(1); }
/* 3-strand closures with a first and b second crossings: one face of a+b edges, larger than all others */
void p06_braid(void){ int a=sym_arg("a",5),b=sym_arg("b",1),i,w[16]; for(i=0;i<a;i++) w[i]=1; for(i=0;i<b;i++) w[a+i]=2; if(b==3){ w[a]=1; w[1]=2; } rm_braid(&M,w,a+b,3); body(1); }
void p06_zero(void){ pd_code_t *a=pd_build_unknot(0),*b=pd_build_unknot(0); b->comp[0].tag=sym_range("tag",'A','z'); pd_regenerate_hash(a); pd_regenerate_hash(b); CHECK(okhash(a),"hash"); CHECK(memcmp(a->hash,b->hash,PD_HASHSIZE)==0,"same hash"); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
