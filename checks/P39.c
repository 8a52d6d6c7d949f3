/* P39: knot types */
//BOUND every knot diagram with <=3 crossings (4 thorough), 8 named ones up to 6 crossings, every choice of crossing signs, 2 numberings; diagrams of 0 crossings; texts of 1..12 factors with arbitrary crossing numbers (up to 2 digits) and indices (up to 4 digits) in one factor, and a text with one arbitrary character anywhere
//STUB clock, signal : no time passes
//JOB p39_any n=1..3
//JOB p39_shape k=0..7
//JOB p39_any n=4 tier=thorough
//JOB p39_zero
//JOB p39_read nf=1..12 d=1
//JOB p39_read nf=1..2,10 d=2..4
//JOB p39_read2 d=1..2
//JOB p39_byte
#include "homfly.h"
#ifndef SYM_ENTRY
long clock(void){ return 0; }
void *signal(int s,void *h){ return 0; }
#endif
static rmap M,A,R; static hpoly want,w2,got;
/* the polynomials of the knots up to 5 crossings and of the sums of two trefoils, as closures of braids with the given signs */
static const struct { int nf,cr[2],ind[2]; int k,len,w[8]; } KN[]={
 {1,{3},{1},2,3,{1,1,1}},{1,{3},{1},2,3,{-1,-1,-1}},{1,{4},{1},3,4,{1,-2,1,-2}},{1,{5},{1},2,5,{1,1,1,1,1}},{1,{5},{1},2,5,{-1,-1,-1,-1,-1}},{1,{5},{2},3,6,{1,1,1,2,-1,2}},{1,{5},{2},3,6,{-1,-1,-1,-2,1,-2}},
 {2,{3,3},{1,1},3,6,{1,1,1,2,2,2}},{2,{3,3},{1,1},3,6,{-1,-1,-1,-2,-2,-2}},{2,{3,3},{1,1},3,6,{1,1,1,-2,-2,-2}},{1,{6},{2},3,6,{-1,-1,-1,2,-1,2}},{1,{6},{2},3,6,{1,1,1,-2,1,-2}} };
static int ktype(const rmap *a){ /* -1: unknot, otherwise index of the knot, -2 none of them */ int i,j; hp_ref(a,&want); hp_unlink(&w2,1); if(hp_eq(&want,&w2)) return -1;
  for(i=0;i<12;i++){ rmap b; int w[8]; for(j=0;j<KN[i].len;j++) w[j]= KN[i].w[j]<0?-KN[i].w[j]:KN[i].w[j]; rm_braid(&b,w,KN[i].len,KN[i].k); rm_orient(&b,0); for(j=0;j<KN[i].len;j++) b.sign[j]= KN[i].w[j]>0; hp_ref(&b,&w2); if(hp_eq(&want,&w2)) return i; } return -2; }
static void judge(int t,plc_knottype *kt,int np){ int i,j,found=0; CHECK(t!=-2,"(reference) one of the listed knots"); CHECK(np>=1&&kt!=0,"the knot is classified");
  for(i=0;i<np;i++){ CHECK(strcmp(kt[i].homfly,kt[0].homfly)==0,"all possible types have the same polynomial"); if(t==-1) found+= kt[i].nf==1&&kt[i].cr[0]==0; else { int ok= kt[i].nf==KN[t].nf; for(j=0;j<KN[t].nf&&ok;j++) if(kt[i].cr[j]!=KN[t].cr[j]||kt[i].ind[j]!=KN[t].ind[j]) ok=0; found+=ok; }
    for(j=0;j<i;j++) CHECK(memcmp(&kt[i],&kt[j],sizeof kt[i])!=0,"each possible type is listed once"); }
  CHECK(found==1,"the type of the knot is among the possible types"); if(t==3||t==4){ int q=0; for(i=0;i<np;i++) q+= kt[i].nf==1&&kt[i].cr[0]==10&&kt[i].ind[0]==132; CHECK(q==1,"10_132 has the polynomial of 5_1 and is listed too"); }
  if(t==7||t==8||t==9) for(i=0;i<np;i++) if(kt[i].nf==2&&kt[i].cr[0]==3&&kt[i].cr[1]==3) CHECK((strcmp(kt[i].sym[0],kt[i].sym[1])==0)==(t!=9),"granny and square knot are told apart"); }
static void cls(void){ int i,np=-7; sym_assume(M.ncomps==1); for(i=0;i<M.n;i++) M.sign[i]=sym_range("sign",0,1); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n<2?2:M.n); rm_from_pd(&A,pd); int t=ktype(&A);
  plc_knottype *kt=pd_classify(pd,&np); judge(t,kt,np); 
  if(t>=0){ /* the mirror image has the mirrored type */ int np2=-7,j; pd_code_t *q; rm_from_pd(&M,pd); for(i=0;i<M.n;i++) M.sign[i]=1-M.sign[i]; q=mk_pd(&M,0,M.n<2?2:M.n); plc_knottype *k2=pd_classify(q,&np2); CHECK(np2==np,"as many types for the mirror image"); if(t<=1) CHECK(strcmp(kt[0].sym[0],k2[0].sym[0])!=0,"left and right trefoil are told apart"); free(k2); pd_code_free(&q); }
  free(kt); CHECK(ref_bad(pd)==0,"diagram unchanged"); rm_from_pd(&R,pd); CHECK(rm_iso(&A,&R,M_SIGN|M_ORIENT|M_TAG|M_LABEL),"diagram unchanged"); pd_code_free(&pd); sym_reach("end"); }
void p39_any(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); cls(); }
void p39_shape(void){ static const struct { int k,len,w[8]; } S[]={ {2,3,{1,1,1}},{3,4,{1,2,1,2}},{2,5,{1,1,1,1,1}},{3,4,{1,1,1,2}},{3,6,{1,1,1,2,2,2}},{3,6,{1,1,1,2,1,2}},{4,3,{1,2,3}},{4,5,{1,1,1,2,3}} }; int k=sym_arg("k",0); rm_braid(&M,S[k].w,S[k].len,S[k].k); rm_orient(&M,sym_choice("flip",0,1)); cls(); }
void p39_zero(void){ int np=-7; pd_code_t *pd=pd_build_unknot(0); plc_knottype *kt=pd_classify(pd,&np); judge(-1,kt,np); free(kt); pd_code_free(&pd); sym_reach("end"); }
static const long NK[20]={1,0,0,1,1,2,3,7,21,49,165,552,2176,9988,46972,253293,1388705,8053393,48266466,294130458};
static int digits(char *t,int n){ int i,v=0; for(i=0;i<n;i++){ t[i]=sym_u8("digit"); sym_assume(t[i]>='0'&&t[i]<='9'); } for(i=0;i<n;i++) v=10*v+t[i]-'0'; return v; }
static void expect(plc_knottype *kt,int nf,const int *cr,const int *ind){ int i,ok= nf>=1&&nf<=MAXPRIMEFACTORS; for(i=0;i<nf;i++){ if(cr[i]<0||cr[i]>19) ok=0; else if(ind[i]<1||ind[i]>NK[cr[i]]) ok=0; }
  if(!ok) CHECK(kt==0,"a name of no prime knot is refused"); else { CHECK(kt!=0,"a valid name is read"); CHECK(kt->nf==nf,"number of prime factors"); for(i=0;i<nf;i++) CHECK(kt->cr[i]==cr[i]&&kt->ind[i]==ind[i],"crossing number and index of each factor"); 
    if(sym_arg("d",1)<2){ FILE *f=tmpfile(); char line[256]; plc_write_knottype(f,*kt); rewind(f); CHECK(fgets(line,sizeof line,f)!=0,"the type is written"); fclose(f); plc_knottype *k2=plc_read_knottype(line); CHECK(k2!=0&&k2->nf==nf,"what was written reads back"); for(i=0;i<nf;i++) CHECK(k2->cr[i]==cr[i]&&k2->ind[i]==ind[i],"what was written reads back as the same type"); free(k2); } free(kt); } sym_reach("end"); }
void p39_read(void){ int nf=sym_arg("nf",1),d=sym_arg("d",1),i,cr[12],ind[12],at=sym_choice("at",0,nf-1); char t[128]; int n=0; static const int C[12]={3,4,5,6,7,8,9,3,3,3,4,5}; for(i=0;i<nf;i++){ if(i) t[n++]='#'; if(i==at){ int w= d>2?2:d; cr[i]=digits(t+n,w); n+=w; t[n++]='_'; ind[i]=digits(t+n,d); n+=d; } else { cr[i]=C[i]; ind[i]=1; t[n++]='0'+cr[i]; t[n++]='_'; t[n++]='1'; } } t[n]=0;
  expect(plc_read_knottype(t),nf,cr,ind); }
void p39_read2(void){ int d=sym_arg("d",1),cr[2],ind[2]; char t[32]; int n=0,i; for(i=0;i<2;i++){ if(i) t[n++]='#'; cr[i]=digits(t+n,1); n++; t[n++]='_'; ind[i]=digits(t+n,d); n+=d; } t[n]=0; expect(plc_read_knottype(t),2,cr,ind); }
void p39_byte(void){ char t[]="3_1#10_124#4_1"; int at=sym_choice("at",0,13),i; unsigned char b=sym_u8("b"); t[at]=b; sym_assume(b!=0); plc_knottype *kt=plc_read_knottype(t); if(kt){ CHECK(kt->nf>=1&&kt->nf<=4,"number of factors"); for(i=0;i<kt->nf;i++) CHECK(kt->cr[i]>=0&&kt->cr[i]<=19&&kt->ind[i]>=1&&kt->ind[i]<=NK[kt->cr[i]],"only types of prime knots are read"); free(kt); } sym_reach("end"); }
