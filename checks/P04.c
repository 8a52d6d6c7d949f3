/* P04: reading malformed diagram text is safe */
//BOUND the face list may be incomplete (the library accepts a diagram whose file lists only part of its faces; each listed face must be right); crossing counts above 399 or negative are excluded (allocation failure aborts)
//BOUND texts of valid diagrams with 0..3 crossings where one byte (any position, any of 256 values), or one number (symbolic up to 3 digits), is replaced, or which are cut at any position, or get one line deleted or duplicated, or whose edge, component or face section announces 0..16 more or fewer records and holds as many as announced (the last one repeated or the last ones dropped), and the records of one component or face announce up to 24 entries and hold them; header hashes up to 40 characters
//JOB p04_byte shape=0 part=0..3
//JOB p04_byte shape=1,3 part=0..7
//JOB p04_byte shape=2 part=0..7 tier=thorough
//JOB p04_num shape=0..3 part=0..3
//JOB p04_cut shape=0..3
//JOB p04_line shape=0..3
//JOB p04_count shape=0..5,9 sec=0..2
//JOB p04_count shape=6,11,12 sec=0..2 tier=thorough
//JOB p04_hash
//JOB p04_zero
//JOB p04_zcut
//JOB p04_kt
#define REF_PARTIAL_FACES 1
#include "diag.h"
static rmap M; static char T[3000],U[3000]; static int L;
static void text(int shape){ int i; if(shape<0){ pd_code_t *pd=pd_build_unknot(0); FILE *f=tmpfile(); pd_write(f,pd); rewind(f); L=fread(T,1,2900,f); fclose(f); } else { rm_shape(&M,shape); rm_orient(&M,0); for(i=0;i<M.n;i++) M.sign[i]=i%3; pd_code_t *pd=mk_pd(&M,0,M.n); pd->uid=3; FILE *f=tmpfile(); pd_write(f,pd); rewind(f); L=fread(T,1,2900,f); fclose(f); pd_code_free(&pd); } T[L]=0; }
static void try_(const char *s,int n){ FILE *f=tmpfile(); fwrite(s,1,n,f); rewind(f); int err=0; pd_code_t *q=pd_read_err(f,&err); CHECK(q!=NULL||err!=0,"a failed read reports an error"); if(q!=NULL&&err==0){ const char *b=ref_bad(q); CHECK(b==0,"a diagram read without error is consistent"); } if(q) pd_code_free(&q); fclose(f); sym_reach("end"); }
void p04_byte(void){ text(sym_arg("shape",1)); int part=sym_arg("part",0); int np=sym_arg("shape",1)==0?4:8; int lo=L*part/np,hi=L*(part+1)/np-1; int p=sym_choice("pos",lo,hi); unsigned char b=sym_u8("byte"); int nv=(int)(strstr(T,"nv")-T); if(p>=nv&&p<=nv+5){ sym_assume(b!='-'); b=sym_concretize(b); } /* a negative crossing count is out of bounds (allocation) */ T[p]=b; try_(T,L); }
void p04_cut(void){ text(sym_arg("shape",1)); int p=sym_choice("len",0,L); try_(T,p); }
void p04_num(void){ int k=0,i,part=sym_arg("part",0); text(sym_arg("shape",1)); /* start positions of numbers after the header line */ int st[400],en[400]; for(i=0;T[i]!='\n';i++); for(;i<L;i++) if(T[i]>='0'&&T[i]<='9'){ st[k]=i; while(T[i]>='0'&&T[i]<='9') i++; en[k++]=i; }
  int w=sym_choice("which",k*part/4,k*(part+1)/4-1); int nd=sym_choice("digits",1,3); int n=0; if(w==0) sym_assume(nd==1); for(i=0;i<st[w];i++) U[n++]=T[i]; for(i=0;i<nd;i++) U[n++]=sym_range("digit",'0','9'); for(i=en[w];i<L;i++) U[n++]=T[i];
  try_(U,n); }
void p04_line(void){ text(sym_arg("shape",1)); int i,k=0,ls[200]; ls[k++]=0; for(i=0;i<L;i++) if(T[i]=='\n') ls[k++]=i+1; int w=sym_choice("line",0,k-2),dup=sym_choice("dup",0,1),n=0; memcpy(U,T,ls[w]); n=ls[w]; if(dup){ memcpy(U+n,T+ls[w],ls[w+1]-ls[w]); n+=ls[w+1]-ls[w]; memcpy(U+n,T+ls[w],ls[w+1]-ls[w]); n+=ls[w+1]-ls[w]; } memcpy(U+n,T+ls[w+1],L-ls[w+1]); n+=L-ls[w+1]; try_(U,n); }
void p04_count(void){ text(sym_arg("shape",1)); int sec=sym_arg("sec",2); const char *key[3]={"\nne ","\nnc ","\nnf "}; char *p=strstr(T,key[sec])+1,*q=strchr(p,'\n')+1; int k=atoi(p+3),i,j,n; char *ln[64]; char *e=q; for(i=0;i<k;i++){ ln[i]=e; e=strchr(e,'\n')+1; } ln[k]=e;
  n=p-T; memcpy(U,T,n);
  if(sym_choice("inner",0,sec>0)){ /* one record announces more entries than it should and holds them */ int w=sym_choice("rec",0,k-1),c=sym_choice("entries",0,24); memcpy(U+n,p,ln[w]-p); n+=ln[w]-p; n+=sprintf(U+n,"%d : ",c); for(j=0;j<c;j++) n+=sprintf(U+n,sec==1?"%d ":"+ %d ",j); n+=sprintf(U+n,sec==1?"tag A\n":"\n"); memcpy(U+n,ln[w+1],T+L-ln[w+1]); n+=T+L-ln[w+1]; }
  else { int nk=sym_choice("count",0,k+16); n+=sprintf(U+n,"%c%c %d\n",key[sec][1],key[sec][2],nk); for(i=0;i<nk;i++){ j=i<k?i:k-1; if(j<0) break; memcpy(U+n,ln[j],ln[j+1]-ln[j]); n+=ln[j+1]-ln[j]; } memcpy(U+n,e,T+L-e); n+=T+L-e; }
  try_(U,n); }
void p04_hash(void){ text(1); int i,n=0,h=sym_choice("hashlen",28,40); n=sprintf(U,"pd "); for(i=0;i<h;i++) U[n++]=i==3?sym_range("c",'!','~'):'x'; n+=sprintf(U+n," %d",sym_choice("uid",0,1)); for(i=0;T[i]!='\n';i++); for(;i<L;i++) U[n++]=T[i]; try_(U,n); }
void p04_zero(void){ text(-1); int p=sym_choice("pos",0,L-1); T[p]=sym_u8("byte"); try_(T,L); }
void p04_zcut(void){ text(-1); int p=sym_choice("len",0,L); try_(T,p); }
/* Mathematica format: the numbers of one crossing arbitrary */
void p04_kt(void){ int c=sym_choice("cross",0,2),j=sym_choice("slot",0,3),x[3][4]={{1,5,2,4},{3,1,4,6},{5,3,6,2}},i,k,n=0; x[c][j]=sym_choice("v",0,9); n=sprintf(U,"PD["); for(i=0;i<3;i++){ n+=sprintf(U+n,"%sX[",i?",":""); for(k=0;k<4;k++) n+=sprintf(U+n,"%s%d",k?", ":"",x[i][k]); n+=sprintf(U+n,"]"); } n+=sprintf(U+n,"]\n");
  FILE *f=tmpfile(); fwrite(U,1,n,f); rewind(f); sym_expect_exit(1); pd_code_t *q=pd_read_KnotTheory(f); sym_expect_exit(0); if(q){ CHECK(ref_bad(q)==0,"diagram read from Mathematica text is consistent"); } sym_reach("end"); }
