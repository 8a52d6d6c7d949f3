/* P21: containers, sorted index buffers */
//BOUND containers: first 0..3, 97..102, 197..202, 298..302 elements (also with initial sizes 0, 100, 150 and 257), then every sequence of 5 add/remove operations; sorted buffers: every sequence of up to 4 (thorough 5) insertions of arbitrary 32-bit numbers, and one arbitrary one (two for 5) into buffers of 5..17 numbers (33 thorough), every query
//JOB p21_cont init=0,100 n=0..3,97..102,197..202,298..302
//JOB p21_cont init=150 n=148..151,298..301
//JOB p21_cont init=257 n=255..258
//JOB p21_sorted n=1..4
//JOB p21_sorted n=5 tier=thorough
//JOB p21_long m=5..9,16,17 k=1
//JOB p21_long m=33 k=1 tier=thorough
//JOB p21_long m=5 k=2
//JOB p21_buf n=0..4
#include "diag.h"
#include "pd_container.h"
#include "pd_sortedbuf.h"
static int nfreed[1024]; static int cell[1024];
static void myfree(void **p){ CHECK(*p>=(void*)cell&&*p<(void*)(cell+1024),"only stored pointers are freed"); nfreed[(int*)*p-cell]++; *p=0; }
void p21_cont(void){ int n=sym_arg("n",3),i,j,ref[1024],k=0,next=0; pd_container_t *c=pd_new_container(sym_arg("init",0)); CHECK(c&&pd_container_nelts(c)==0,"new container is empty"); for(i=0;i<n;i++){ ref[k++]=next; pd_addto_container(c,&cell[next++]); }
  for(j=0;j<5;j++){ int op=sym_choice("op",0,1); if(op&&k>0){ void *p=pd_pop_container(c); CHECK(p==&cell[ref[--k]],"removing returns the last element added"); } else { ref[k++]=next; pd_addto_container(c,&cell[next++]); } CHECK((int)pd_container_nelts(c)==k,"number of elements"); CHECK(pd_container_ok(c),"container passes its check"); if(k) CHECK(pd_container_elt(c,k-1)==&cell[ref[k-1]],"last element"); }
  for(i=0;i<k;i++) CHECK(pd_container_elt(c,i)==&cell[ref[i]],"elements stay in order of addition"); for(i=0;i<1024;i++) nfreed[i]=0; pd_free_container(&c,myfree); CHECK(c==0,"freeing clears the pointer"); int tot=0; for(i=0;i<next;i++) tot+=nfreed[i]; CHECK(tot==k,"each stored element is freed"); for(i=0;i<k;i++) CHECK(nfreed[ref[i]]==1,"each stored element is freed once"); pd_free_container(&c,myfree); sym_reach("end"); }
void p21_sorted(void){ int n=sym_arg("n",3),i,j; pd_idx_t *b=0,sz=0,v[6]; for(i=0;i<n;i++){ v[i]=sym_u32("v"); pd_idx_t old=sz; int dup=0; for(j=0;j<i;j++) dup|=v[i]==v[j]; b=pd_sortedbuf_insert(b,&sz,v[i]); CHECK(b!=0,"buffer exists"); CHECK(sz==(dup?old:old+1),"a number is inserted once"); for(j=1;j<(int)sz;j++) CHECK(b[j-1]<b[j],"strictly increasing"); }
  for(i=0;i<n;i++){ int f=0; for(j=0;j<(int)sz;j++) f|=b[j]==v[i]; CHECK(f,"every inserted number is there"); } pd_idx_t q=sym_u32("q"); int in=0; for(i=0;i<n;i++) in|=v[i]==q; CHECK(pd_sortedbuf_contains(b,sz,q)==in,"membership is exact"); free(b); sym_reach("end"); }
/* long buffers (m numbers put in ascending, descending or mixed order), then k arbitrary ones */
void p21_long(void){ int m=sym_arg("m",6),k=sym_arg("k",1),o=sym_choice("order",0,2),i,j,g; pd_idx_t *b=0,sz=0,v[40]; for(i=0;i<m;i++){ j=o==0?i:o==1?m-1-i:(i*7+3)%m; if(o==2&&m%7==0) j=(i*5+2)%m; v[i]=3+5*j; b=pd_sortedbuf_insert(b,&sz,v[i]); } CHECK((int)sz==m,"a number is inserted once"); for(;i<m+k;i++){ v[i]=sym_u32("v"); pd_idx_t old=sz; int dup=0; for(j=0;j<i;j++) dup|=v[i]==v[j]; b=pd_sortedbuf_insert(b,&sz,v[i]); CHECK(sz==(dup?old:old+1),"a number is inserted once"); for(j=1;j<(int)sz;j++) CHECK(b[j-1]<b[j],"strictly increasing"); }
  for(i=0;i<m+k;i++){ int f=0; for(j=0;j<(int)sz;j++) f|=b[j]==v[i]; CHECK(f,"every inserted number is there"); } pd_idx_t q=sym_u32("q"); int in=0; for(i=0;i<m+k;i++) in|=v[i]==q; CHECK(pd_sortedbuf_contains(b,sz,q)==in,"membership is exact"); free(b); sym_reach("end"); }
void p21_buf(void){ int n=sym_arg("n",3),i,f=-1; pd_idx_t v[6],w=77,q; for(i=0;i<n;i++) v[i]=sym_u32("v"); q=sym_u32("q"); int r=pd_buf_contains(v,n,q,&w); for(i=n-1;i>=0;i--) if(v[i]==q) f=i; CHECK(r==(f>=0),"membership is exact"); if(f>=0) CHECK(w<(unsigned)n&&v[w]==q,"position"); else CHECK(w==PD_UNSET_IDX,"no position"); sym_reach("end"); }
