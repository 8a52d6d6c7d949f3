/* P03: text formats round trip */
//BOUND 22 shadows up to 12 crossings and every planar map with <=3 crossings; signs symbolic {neg,pos,unset} on up to 4 crossings; component tags symbolic printable characters, pairwise distinct; all component orientations; files holding 1..3 diagrams in sequence; 0-crossing diagrams with symbolic tag
//JOB p03_shape shape=0..21
//JOB p03_small n=1..3
//JOB p03_small n=4 tier=thorough time=600
//JOB p03_zero
//JOB p03_seq
//JOB p03_nohash shape=0,2,6,9
//JOB p03_kt shape=2,4,5,6,8,11..15,17,20 cost=5
//JOB p03_kt shape=18 tier=thorough
//JOB p03_ktsmall n=2..3
//JOB p03_ktsmall n=4 cost=9
#include "diag.h"
static rmap M;
static void tags(pd_code_t *pd){ int i,j; for(i=0;i<(int)pd->ncomps;i++){ if(i<3) pd->comp[i].tag=sym_range("tag",'A','~'); else pd->comp[i].tag='A'+50+i; for(j=0;j<i;j++) sym_assume(pd->comp[i].tag!=pd->comp[j].tag); } }
static void signs4(void){ int i; for(i=0;i<M.n;i++) M.sign[i]= i<4? sym_range("sign",0,2) : (i%3); }
static void rt(pd_code_t *pd){ FILE *f=tmpfile(); char h[PD_HASHSIZE]; memcpy(h,pd->hash,PD_HASHSIZE); pd_uid_t u=pd->uid; pd_code_t *keep=pd_copy(pd); pd_write(f,pd); CHECK(pd_same(pd,keep),"writing does not change the diagram"); rewind(f);
  int err=0; pd_code_t *q=pd_read_err(f,&err); CHECK(err==0,"written diagram reads without error"); CHECK(q!=NULL,"written diagram can be read"); CHECK(pd_same(pd,q),"read diagram equals the written one"); CHECK(strcmp(q->hash,h)==0,"hash is kept"); CHECK(q->uid==u,"uid is kept"); CHECK_VALID(q,"read diagram is valid"); int c=fgetc(f); CHECK(c==EOF||c=='\n',"nothing left over"); fclose(f); pd_code_free(&q); pd_code_free(&keep); }
static const pd_uid_t UIDS[3]={0,77,PD_UNSET_UID};
void p03_shape(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,1)); signs4(); int v=sym_choice("var",0,2); pd_code_t *pd=mk_pd(&M,v,M.n+1); tags(pd); pd->uid=UIDS[v]; rt(pd); pd_code_free(&pd); sym_reach("end"); }
void p03_small(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,3)); signs4(); pd_code_t *pd=mk_pd(&M,0,M.n); pd->uid=5; rt(pd); pd_code_free(&pd); sym_reach("end"); }
void p03_zero(void){ pd_code_t *pd=pd_build_unknot(0); pd->comp[0].tag=sym_range("tag",'A','~'); FILE *f=tmpfile(); pd_write(f,pd); rewind(f); pd_code_t *q=pd_read(f); CHECK(q!=NULL,"0-crossing diagram reads"); CHECK(pd_same(pd,q),"0-crossing diagram is kept"); CHECK_VALID(q,"valid"); fclose(f); sym_reach("end"); }
void p03_seq(void){ int ids[3],i,n; pd_code_t *p[3]; n=sym_choice("count",2,3); FILE *f=tmpfile(); int sep=sym_choice("sep",0,2); for(i=0;i<n;i++){ int s=sym_choice("which",0,4); ids[i]=s; if(s==4){ p[i]=pd_build_unknot(0); } else { rm_shape(&M,s); rm_orient(&M,0); int k; for(k=0;k<M.n;k++) M.sign[k]=(k+i)%3; p[i]=mk_pd(&M,0,M.n); } p[i]->comp[0].tag='P'+i; if(p[i]->ncomps>1) p[i]->comp[1].tag='a'; p[i]->uid=i; pd_write(f,p[i]); if(sep>=1) fprintf(f,"\n"); if(sep==2) fprintf(f,"  \n"); }
  rewind(f); for(i=0;i<n;i++){ pd_code_t *q=pd_read(f); CHECK(q!=NULL,"every diagram of the file is read"); CHECK(pd_same(p[i],q),"diagrams of a file come back in order"); } 
  { int err=0; pd_code_t *q=pd_read_err(f,&err); CHECK(q==NULL,"no diagram after the end of the file"); CHECK(err==PD_EOF,"end of file is reported"); } sym_reach("end"); }
void p03_nohash(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,0); signs4(); pd_code_t *pd=mk_pd(&M,0,M.n); FILE *f=tmpfile(),*g=tmpfile(); pd_write(f,pd); rewind(f); char buf[200]; fgets(buf,200,f); fprintf(g,"pd\n"); int c; while((c=fgetc(f))!=EOF) fputc(c,g); rewind(g); pd_code_t *q=pd_read(g); CHECK(q!=NULL,"header without hash is accepted"); CHECK(pd_same(pd,q),"diagram kept"); CHECK(strcmp(q->hash,pd->hash)==0,"missing hash is recomputed"); CHECK(q->uid==PD_UNSET_UID,"uid unset"); sym_reach("end"); }
static void kt(pd_code_t *pd){ int i; for(i=0;i<(int)pd->ncomps;i++) sym_assume(pd->comp[i].nedges>=3); FILE *f=tmpfile(); pd_write_KnotTheory(f,pd); rewind(f); pd_code_t *q=pd_read_KnotTheory(f); CHECK(q!=NULL,"KnotTheory text reads back"); CHECK_VALID(q,"KnotTheory diagram valid"); CHECK(pd_ref_iso(pd,q,M_SIGN|M_ORIENT),"KnotTheory round trip keeps crossings, signs and orientations"); fclose(f); sym_reach("end"); }
void p03_kt(void){ int i; rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,0); for(i=0;i<M.n;i++) M.sign[i]= i<6? sym_range("sign",0,1) : ((i>>1)&1); rm_orient(&M,sym_choice("flip",0,(1<<M.ncomps)-1)); pd_code_t *pd=mk_pd(&M,sym_choice("var",0,1),M.n); kt(pd); }
void p03_ktsmall(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,0); sym_signs(&M,0,1); pd_code_t *pd=mk_pd(&M,0,M.n); kt(pd); }
