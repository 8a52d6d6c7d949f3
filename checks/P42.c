/* P42: sliding a strand over or under a tangle */
//BOUND every slide of a strand of 1..3 crossings over or under a tangle of 2, 4 or 6 boundary edges in diagrams of <=4 crossings and 6 named diagrams up to 6 crossings, every choice of crossing signs, and the refusal of every strand that changes between over and under or has no anchor
//JOB p42_any n=3 k=2,4
//JOB p42_any n=4 k=2,4 tier=thorough
//JOB p42_shape s=2,4 k=4
//JOB p42_shape s=7,9,19 k=2,4
//JOB p42_shape s=4,9 k=6
//JOB p42_shape s=6 k=4
//JOB p42_shape s=11 k=4
//JOB p42_shape s=8 k=4 tier=thorough
//JOB p42_shape s=6,8,11 k=6 tier=thorough
#include "tangle.h"
#include "homfly.h"
static rmap M,A,R,U; static pd_code_t *pd; static pd_tangle_t *t; static hpoly want,got,h;
static void slide(int k){ int i,j,ne,i0,rev,os[8],fs[8],sd[8]; sym_signs(&M,0,1); pd=mk_pd(&M,0,M.n); rm_from_pd(&A,pd); tg_faces(&A,pd); sym_assume(tg_choose(&A,k)); sym_assume(tg_fill(&A)); ne=sym_choice("strand",2,k<4?k+1:4); i0=sym_choice("from",0,k-1); rev=sym_choice("reverse",0,1); if(ne-1>k) sym_assume(0);
  for(j=0;j<ne-1;j++){ int o=TD[(i0+j)%k]; sd[j]=o; if(j) sym_assume(A.mate[rm_cw(sd[j-1])]==rm_ccw(o)); } /* the strand runs along the boundary with the tangle on its left */
  for(j=0;j<ne-1;j++) for(i=0;i<j;i++) sym_assume(sd[i]/4!=sd[j]/4);
  sym_assume(A.in[rev?rm_cw(sd[ne-2]):rm_ccw(sd[0])]); int first=rm_ccw(sd[0]),last=rm_cw(sd[ne-2]);
  for(j=0;j<ne;j++){ int e= j<ne-1? A.eno[rm_ccw(sd[j])] : A.eno[last],f=TF[TD[(i0+j)%k]]; os[rev?ne-1-j:j]=e; fs[rev?ne-1-j:j]=f; }
  /* is the place determined? count the places of the faces along the boundary that fit the edges */
  int nm=0,q; for(q=0;q<2;q++) for(i=0;i<k;i++){ int ok=1; for(j=0;j<ne&&ok;j++){ int p= q? (i+k*4-j)%k : (i+j)%k, hd; if(TF[TD[p]]!=fs[j]) ok=0; for(hd=0;hd<4*A.n;hd++) if(A.eno[hd]==os[j]&&A.in[hd]==q&&TF[hd]!=fs[j]) ok=0; } nm+=ok; } sym_assume(nm==1);
  /* edges used twice, or lying in the tangle */
  for(j=0;j<ne;j++) for(i=0;i<j;i++) sym_assume(os[i]!=os[j]); for(j=0;j<ne;j++){ int d; for(d=0;d<4*A.n;d++) if(A.eno[d]==os[j]&&TIN[d/4]&&TIN[A.mate[d]/4]) sym_assume(0); }
  int over=-1,bad=0,a0=A.mate[first]/4,a1=A.mate[last]/4; hstate s; s.m=&A; memset(s.sm,0,sizeof s.sm); for(i=0;i<A.n;i++) s.sg[i]=A.sign[i];
  for(j=0;j<ne-1;j++){ int x=hs_over(&s,rev?rm_cw(sd[j]):rm_ccw(sd[j])); if(over>=0&&x!=over) bad=1; over=x; if(sd[j]/4==a0||sd[j]/4==a1) bad=1; } if(TIN[a0]||TIN[a1]) bad=1;
  hp_ref(&A,&want); t=tg_make(&A); pd_regenerate_tangle(pd,t); pd_idx_t E[8],F[8]; for(j=0;j<ne;j++){ E[j]=os[j]; F[j]=fs[j]; } pd_idx_t np=77; pd_code_t **pc=0; int err=0; pd_tangle_slide_err(pd,t,ne,E,F,&np,&pc,&err);
  if(bad){ CHECK(err!=0,"a strand that cannot be slid is refused"); sym_reach("end"); return; }
  if(ne==2&&err){ sym_reach("end"); return; } CHECK(err==0,"the strand is slid"); CHECK(np>=1&&np<=8&&pc,"pieces"); U.n=0; int z=0,nc=0,tags[16],tot; for(i=0;i<(int)np;i++){ CHECK(pc[i]!=0&&ref_bad(pc[i])==0,"the diagram made is consistent"); for(j=0;j<(int)pc[i]->ncomps;j++){ CHECK(nc<16,"components"); tags[nc++]=pc[i]->comp[j].tag; } if(pc[i]->ncross==0){ z++; continue; } rm_from_pd(&R,pc[i]); int b=4*U.n,d; for(d=0;d<4*R.n;d++){ U.mate[b+d]=R.mate[d]+b; U.in[b+d]=R.in[d]; } for(d=0;d<R.n;d++) U.sign[U.n+d]=R.sign[d]; U.n+=R.n; }
  tot=A.n-(ne-1)+(k-(ne-1)); CHECK(U.n==tot,"the strand crosses the other edges of the tangle instead"); CHECK(nc==(int)A.ncomps,"number of components"); for(i=0;i<(int)pd->ncomps;i++){ int f=0; for(j=0;j<nc;j++) f+= tags[j]==pd->comp[i].tag; CHECK(f==1,"each component keeps its tag"); }
  if(U.n==0) hp_unlink(&got,z); else { hp_ref(&U,&got); while(z-->0){ hp_zero(&h); hp_add(&h,&got,-1,1,-1); hp_add(&h,&got,-1,-1,-1); memcpy(&got,&h,sizeof h); } } CHECK(hp_eq(&want,&got),"the link is the same (its polynomial)");
  CHECK(ref_bad(pd)==0,"diagram unchanged"); rm_from_pd(&R,pd); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"diagram unchanged"); for(i=0;i<(int)np;i++) pd_code_free(&pc[i]); free(pc); pd_tangle_free(&t); pd_code_free(&pd); sym_reach("end"); }
void p42_any(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); slide(sym_arg("k",4)); }
void p42_shape(void){ rm_shape(&M,sym_arg("s",2)); rm_orient(&M,sym_choice("flip",0,1)); slide(sym_arg("k",4)); }
