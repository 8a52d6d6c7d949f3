/* P08: the diagram store is a set up to the chosen equivalence */
//BOUND histories of 3 additions (4 thorough) to an empty store, each of a diagram from a pool of 9 (0 to 4 crossings) in one of 3 numberings/orientations/mirror images; one crossing sign symbolic, all-set or all-unset; each of the three equivalences; saving and loading afterwards under each equivalence; headers with symbolic counts
//STUB Judy arrays replaced by sorted lists with the documented contracts (checks/judy_stub.h)
//JOB p08_hist eq=0..2 k=3 first=0..6 pool=7
//JOB p08_hist eq=0..2 k=3 first=0..8 pool=9 tier=thorough
//JOB p08_hist eq=0..2 k=4 first=0..4 pool=5 tier=thorough
//JOB p08_save eq=0..2 pool=6
//JOB p08_hdr
//JOB p08_search q=0..6 pool=6
//JOB p08_search q=0..8 pool=9 tier=thorough
//JOB p08_empty
#include "diag.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#include "pd_storage.h"
#include "judy_stub.h"
static rmap M;
static void mirror(rmap *m){ static rmap t; int d; t=*m; for(d=0;d<4*m->n;d++){ int e=(d&3)==1?d+2:(d&3)==3?d-2:d, f=t.mate[d]; f=(f&3)==1?f+2:(f&3)==3?f-2:f; m->mate[e]=f; } }
static const int POOL[9]={0,1,3,2,-1,1,2,9,7} /* 5: unset signs, 6: negative */;
static pd_code_t *mk(int which,int var,int symsign){ int i; if(POOL[which]<0) return pd_build_unknot(0); rm_shape(&M,POOL[which]); if(var==2) mirror(&M); rm_orient(&M,var==1); for(i=0;i<M.n;i++) M.sign[i]= which==5? 2 : which==6? 0 : 1; if(symsign&&which!=5) M.sign[0]=sym_range("sign",0,1); return mk_pd(&M,var,M.n); }
static int equiv(int eq,pd_code_t *a,pd_code_t *b){ if(eq==NONE) return 0; return eq==ISOMORPHISM? pd_ref_iso(a,b,M_MIRROR) : pd_ref_iso(a,b,M_SIGN|M_ORIENT|M_TAG|M_MIRROR); }
static int exact(pd_code_t *a,pd_code_t *b){ return pd_ref_iso(a,b,M_SIGN|M_ORIENT); }
/* the store holds exactly the k diagrams of rep[] */
static void same(pd_stor_t *s,pd_code_t **rep,int k,const char *msg){ int i,j,n=0,hit[8]={0}; pd_code_t *p; pd_uid_t u[8]; char h[8][PD_HASHSIZE];
  CHECK((int)pd_stor_nelts(s)==k,"element count"); unsigned nh=0,ne=0; pd_stor_stats(s,&nh,&ne); CHECK((int)ne==k,"counted elements"); 
  for(p=pd_stor_firstelt(s);p;p=pd_stor_nextelt(s)){ int ok=0; CHECK(n<k,"iteration visits no more than the elements"); CHECK_VALID(p,"stored diagram is consistent"); for(i=0;i<k&&!ok;i++) if(!hit[i]&&exact(p,rep[i])){ hit[i]=1; ok=1; } CHECK(ok,"every element visited is a diagram that was added"); u[n]=p->uid; memcpy(h[n],p->hash,PD_HASHSIZE); for(j=0;j<n;j++) CHECK(u[j]!=u[n]||strcmp(h[j],h[n]),"hash and identifier together are unique"); n++; pd_code_free(&p); }
  CHECK(n==k,"iteration visits every element"); int d=0; for(i=0;i<k;i++){ for(j=0;j<i;j++) if(!strcmp(rep[i]->hash,rep[j]->hash)) break; if(j==i) d++; } CHECK((int)nh==d,"number of different hashes"); }
static pd_stor_t *build(int eq,int k,pd_code_t **rep,int *nr,int first){ int i,j; pd_stor_t *s=pd_new_pdstor(); *nr=0; for(i=0;i<k;i++){ pd_code_t *p=mk(i==0&&first>=0?first:sym_choice("which",0,sym_arg("pool",7)-1),i==0?0:sym_choice("var",0,2),i==1); p->uid=7; for(j=0;j<*nr;j++) if(equiv(eq,p,rep[j])) break; pd_addto_pdstor(s,p,eq); CHECK_VALID(p,"the added diagram itself is left consistent"); if(j<*nr){ CHECK(p->uid==rep[j]->uid,"a duplicate is told the identifier of the stored one"); pd_code_free(&p); } else rep[(*nr)++]=p; }
  return s; }
static void done(pd_stor_t *s,pd_code_t **rep,int k){ int i; pd_free_pdstor(&s); CHECK(s==NULL,"freed"); for(i=0;i<k;i++) pd_code_free(&rep[i]); sym_reach("end"); }
void p08_hist(void){ pd_code_t *rep[8]; int nr; pd_stor_t *s=build(sym_arg("eq",1),sym_arg("k",3),rep,&nr,sym_arg("first",0)); same(s,rep,nr,""); done(s,rep,nr); }
void p08_save(void){ pd_code_t *rep[8],*p; int nr,i,j,eq=sym_arg("eq",1),eq2=sym_choice("eq2",0,2); pd_stor_t *s=build(eq,2,rep,&nr,-1); FILE *f=fopen("st","w+"); pd_write_pdstor(f,s); rewind(f); pd_stor_t *t=pd_read_pdstor(f,eq2); fclose(f); CHECK(t!=NULL,"a saved store can be loaded"); pd_code_t *r2[8]; int n2=0; for(i=0;i<nr;i++){ for(j=0;j<n2;j++) if(equiv(eq2,rep[i],r2[j])) break; if(j==n2) r2[n2++]=rep[i]; }
  if(eq2==NONE||n2==nr) same(t,rep,nr,""); else CHECK((int)pd_stor_nelts(t)==n2,"loading merges equivalent diagrams"); pd_free_pdstor(&t); done(s,rep,nr); }
void p08_empty(void){ pd_stor_t *s=pd_new_pdstor(); CHECK(pd_stor_nelts(s)==0&&pd_stor_firstelt(s)==NULL,"empty store"); FILE *f=fopen("st","w+"); pd_write_pdstor(f,s); rewind(f); pd_stor_t *t=pd_read_pdstor(f,ISOMORPHISM); CHECK(t!=NULL&&pd_stor_nelts(t)==0,"empty store survives saving"); pd_free_pdstor(&t); done(s,0,0); }
void p08_hdr(void){ pd_code_t *p=mk(3,0,0); int c=sym_choice("claimed",0,3),a=sym_choice("actual",0,3),n=sym_choice("present",0,2),i,inc=sym_choice("form",0,2); FILE *f=fopen("st","w+"); if(inc==0) fprintf(f,"pdstor \nnelts %d/%d (claimed/actual) nhashes 1 \n\n",c,a); else if(inc==1) fprintf(f,"pdstor\nnelts %013d/%013d (claimed/actual)\nnhashes %013d\n\n",c,a,1); else fprintf(f,"pdstor \nnelts ?/? (claimed/actual) nhashes ? \n\n"); for(i=0;i<n;i++){ pd_write(f,p); fprintf(f,"\n"); } rewind(f); pd_stor_t *t=pd_read_pdstor(f,NONE); fclose(f);
  if(inc==2){ CHECK(t!=NULL&&(int)pd_stor_nelts(t)==n,"a store of unannounced size is read to the end"); } else if(c!=a||c>n) CHECK(t==NULL,"a store with an inconsistent header is refused"); else CHECK(t!=NULL&&(int)pd_stor_nelts(t)==c,"as many diagrams as announced"); if(t) pd_free_pdstor(&t); pd_code_free(&p); sym_reach("end"); }
void p08_search(void){ pd_code_t *rep[8]; int nr,i; pd_stor_t *s=build(ISOMORPHISM,2,rep,&nr,-1); pd_code_t *q=mk(sym_arg("q",0),sym_choice("qv",0,2),1),*r; int want=-1; for(i=0;i<nr;i++) if(equiv(ISOMORPHISM,q,rep[i])) want=i; pd_iso_t **L=0; unsigned n=0; r=pd_search_pdstor_by_isomorphism(s,q,&L,&n); CHECK((r!=NULL)==(want>=0),"found exactly when an isomorphic diagram is stored"); CHECK((n>0)==(want>=0)&&(L!=NULL)==(want>=0),"isomorphisms are returned"); if(r){ CHECK(exact(r,rep[want])&&r->uid==rep[want]->uid,"the stored diagram is returned"); for(i=0;i<(int)n;i++) CHECK(pd_iso_consistent(q,r,L[i]),"isomorphisms lead from the query to it"); pd_free_isos(&n,&L); pd_code_free(&r); } pd_code_free(&q); done(s,rep,nr); }
