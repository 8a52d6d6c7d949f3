/* P15: linking numbers and interlacement counts */
//BOUND every connected planar map with <=3 crossings (4 thorough) and 22 shadows up to 12 crossings; signs symbolic {neg,pos} (up to 8 crossings, fixed pattern on the rest); every component orientation; every pair of distinct components
//JOB p15_lk n=2..3
//JOB p15_lk n=4
//JOB p15_lkshape shape=1,5,6,8,9,11,12,14,16,18
//JOB p15_il n=1..3
//JOB p15_il n=4
//JOB p15_ilshape shape=0..21
#include "diag.h"
#include "pd_invariants.h"
static rmap M,A;
static void lk(void){ int i; for(i=0;i<M.n;i++) M.sign[i]= i<8? sym_range("sign",0,1) : (i%3==1); sym_assume(M.ncomps>1); pd_code_t *pd=mk_pd(&M,0,M.n); rm_from_pd(&A,pd); int a=sym_choice("a",0,pd->ncomps-1),b=sym_choice("b",0,pd->ncomps-1); sym_assume(a!=b);
  int s=0,u=0; for(i=0;i<A.n;i++) if((A.comp[4*i]==a&&A.comp[4*i+1]==b)||(A.comp[4*i]==b&&A.comp[4*i+1]==a)){ u++; s+= A.sign[i]==1?1:-1; }
  CHECK(2*pd_linking_number(pd,a,b)==s,"linking number is half the signed count of crossings between the components"); CHECK(2*pd_unsigned_linking_number(pd,a,b)==(unsigned)u,"unsigned linking number is half the number of such crossings"); pd_code_free(&pd); sym_reach("end"); }
static void il(void){ int i,j,k,c; for(i=0;i<M.n;i++) M.sign[i]=2; M.sign[0]=sym_range("sign",0,2); pd_code_t *pd=mk_pd(&M,0,M.n); rm_from_pd(&A,pd); unsigned *u=pd_interlaced_crossings_unsigned(pd); int *s=pd_interlaced_crossings(pd);
  for(c=0;c<(int)pd->ncomps;c++){ int seq[2*DN],n=pd->comp[c].nedges,pos[DN][2],cnt[DN]; for(i=0;i<A.n;i++) cnt[i]=0; for(i=0;i<n;i++){ int x=pd->edge[pd->comp[c].edge[i]].head; if(cnt[x]<2) pos[x][cnt[x]]=i; cnt[x]++; }
    int tot=0,sg=0; for(i=0;i<A.n;i++) if(cnt[i]==2) for(j=i+1;j<A.n;j++) if(cnt[j]==2){ int a0=pos[i][0],a1=pos[i][1],b0=pos[j][0],b1=pos[j][1]; int in0=b0>a0&&b0<a1,in1=b1>a0&&b1<a1; if(in0!=in1){ tot++; int sn[2],q; for(q=0;q<2;q++){ int x=q?j:i,o[2],z=0,p; for(p=0;p<4;p++) if(!A.in[4*x+p]&&!A.in[4*x+((p+1)&3)]){ o[0]=A.eno[4*x+p]; o[1]=A.eno[4*x+((p+1)&3)]; } sn[q]= o[1]>o[0]?1:-1; } sg+=sn[0]*sn[1]; } }
    CHECK(u[c]==(unsigned)tot,"number of interlaced pairs"); CHECK(s[c]==sg,"signed number of interlaced pairs"); }
  free(u); free(s); CHECK(ref_bad(pd)==0,"diagram unchanged"); pd_code_free(&pd); sym_reach("end"); }
void p15_lk(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); lk(); }
void p15_lkshape(void){ rm_shape(&M,sym_arg("shape",1)); rm_orient(&M,sym_choice("flip",0,3)); lk(); }
void p15_il(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); il(); }
void p15_ilshape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,3)); il(); }
