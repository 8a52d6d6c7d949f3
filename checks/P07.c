/* P07: isomorphism and isotopy of diagrams */
//BOUND both diagrams over all connected planar maps with n crossings (n<=2, n=3 with one fixed orientation); a shadow from a list of 18 (up to 8 crossings) against its renumbered, reoriented, mirrored copy, with and without one crossing resewn; crossing signs of both sides symbolic {neg,pos,unset} (first 3 crossings), tags symbolic from 4 letters
//JOB p07_pair n=1..2
//JOB p07_pair3 first=1,3,4
//JOB p07_iso shape=0..12,14,15,19,21
//JOB p07_isotopy shape=0..12,19,21
//JOB p07_isotopy shape=14,15 tier=thorough
//JOB p07_group shape=2..6,8,11,12,14,15,21
//JOB p07_gsmall n=2..3
//JOB p07_zero
//JOB p07_strings n=1..2
//JOB p07_strings3 shape=2..8
#include "diag.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
static rmap M,N,A,B;
static void mirror(rmap *m){ static rmap t; int d; t=*m; for(d=0;d<4*m->n;d++){ int e=(d&3)==1?d+2:(d&3)==3?d-2:d, f=t.mate[d]; f=(f&3)==1?f+2:(f&3)==3?f-2:f; m->mate[e]=f; } }
static void tags(pd_code_t *p,const char *nm){ int i,j; for(i=0;i<(int)p->ncomps;i++){ p->comp[i].tag=sym_range(nm,'A',i<4?'D':'A'+i); } for(i=0;i<(int)p->ncomps;i++) for(j=0;j<i;j++) sym_assume(p->comp[i].tag!=p->comp[j].tag); }
static void weak(pd_code_t *a,pd_code_t *b){ CHECK(pd_isomorphic(a,b)==!!pd_ref_iso(a,b,M_COMPREV|M_MIRROR),"isomorphic exactly when the shadows are the same up to reflection"); CHECK(pd_map_isomorphic(a,b)==!!pd_ref_iso(a,b,M_COMPREV),"map-isomorphic exactly when the shadows are the same on the oriented sphere"); }
static void strong(pd_code_t *a,pd_code_t *b){ int r=pd_ref_iso(a,b,M_SIGN|M_ORIENT|M_TAG|M_MIRROR); int g=pd_diagram_isotopic(a,b); CHECK(!!g==!!r,"isotopic exactly when orientations, signs and tags correspond under a map of the sphere"); }
static void signs(rmap *m,const char *nm,int lim){ int i; for(i=0;i<m->n;i++) m->sign[i]= i<lim? sym_range(nm,0,2) : 1; }
void p07_pair(void){ int n=sym_arg("n",2); rm_any(&M,n); rm_any(&N,n); rm_orient(&M,0); rm_orient(&N,sym_choice("flip",0,3)); signs(&M,"sa",3); signs(&N,"sb",3); pd_code_t *a=mk_pd(&M,0,n),*b=mk_pd(&N,1,n); if(sym_choice("what",0,1)) weak(a,b); else { tags(b,"tb"); strong(a,b); } CHECK_VALID(a,"first diagram unchanged"); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
void p07_pair3(void){ int n=3; rm_any(&M,n); sym_assume(M.mate[0]==sym_arg("first",1)); rm_any(&N,n); rm_orient(&M,0); rm_orient(&N,0); int i; for(i=0;i<3;i++){ M.sign[i]=1; N.sign[i]= i==0? sym_range("sb",0,2) : 1; } pd_code_t *a=mk_pd(&M,0,n),*b=mk_pd(&N,1,n); weak(a,b); strong(a,b); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
/* resew: swap two edges' ends: changes the map when the result is still planar */
static int resew(rmap *m,int x,int y){ int a=m->mate[x],b=m->mate[y]; if(a==y) return 0; m->mate[x]=y; m->mate[y]=x; m->mate[a]=b; m->mate[b]=a; return rm_planar(m); }
static void second(void){ N=M; if(sym_choice("mirror",0,1)) mirror(&N); if(sym_choice("resew",0,1)){ int y=sym_choice("y",1,4*N.n-1); sym_assume(resew(&N,0,y)); } }
void p07_iso(void){ rm_shape(&M,sym_arg("shape",2)); second(); rm_orient(&M,0); rm_orient(&N,sym_choice("flip",0,1)); signs(&M,"sa",1); signs(&N,"sb",1); pd_code_t *a=mk_pd(&M,0,M.n),*b=mk_pd(&N,sym_choice("var",1,2),M.n); weak(a,b); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
void p07_isotopy(void){ rm_shape(&M,sym_arg("shape",2)); second(); rm_orient(&M,0); rm_orient(&N,sym_choice("flip",0,3)); signs(&M,"sa",2); signs(&N,"sb",2); pd_code_t *a=mk_pd(&M,0,M.n),*b=mk_pd(&N,sym_choice("var",1,2),M.n); tags(b,"tb"); strong(a,b); CHECK(ref_bad(b)==0,"second diagram unchanged"); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
/* is the listed map an isomorphism of A to B in the sense of rm_iso? */
static int edgemap_is_iso(pd_iso_t *s){ int e,d,f[4*DN]; for(d=0;d<4*A.n;d++) f[d]=-1; 
  for(d=0;d<4*A.n;d++){ e=A.eno[d]; int t=s->edgemap->perm->map[e],in=A.in[d]; if(s->edgemap->orient[e]==PD_NEG_ORIENTATION) in=!in; int x; for(x=0;x<4*B.n;x++) if(B.eno[x]==t&&B.in[x]==in) f[d]=x; if(f[d]<0) return 0; }
  for(d=0;d<4*A.n;d++){ if(f[A.mate[d]]!=B.mate[f[d]]) return 0; if(f[d]/4!=(int)s->crossmap->perm->map[d/4]) return 0; if(f[rm_ccw(d)]!=(s->crossmap->orient==PD_POS_ORIENTATION?rm_ccw(f[d]):rm_cw(f[d]))) return 0; } return 1; }
static int count_iso(const rmap *A,const rmap *B){ int n=A->n,s,i,mir,cnt=0; for(mir=0;mir<2;mir++) for(s=0;s<4*n;s++){ int f[4*DN],g[4*DN],st[4*DN],k=0,ok=1; for(i=0;i<4*n;i++) f[i]=g[i]=-1; f[0]=s; g[s]=0; st[k++]=0;
    while(k&&ok){ int d=st[--k],x=f[d]; int nd[2]={rm_ccw(d),A->mate[d]}, nx[2]={mir?rm_cw(x):rm_ccw(x),B->mate[x]}; for(i=0;i<2;i++){ if(f[nd[i]]<0){ if(g[nx[i]]>=0){ ok=0; break; } f[nd[i]]=nx[i]; g[nx[i]]=nd[i]; st[k++]=nd[i]; } else if(f[nd[i]]!=nx[i]){ ok=0; break; } } }
    cnt+=ok; } return cnt; }
static void group(void){ unsigned n=0,i,j,k; int c; for(c=0;c<M.ncomps;c++){ int d,l=0; for(d=0;d<4*M.n;d++) l+=(M.comp[d]==c); sym_assume(l>4); } /* components of two edges are out of the claim: an edge list does not show their direction */ signs(&M,"sa",1); pd_code_t *a=mk_pd(&M,0,M.n),*b=mk_pd(&M,2,M.n); rm_from_pd(&A,a); rm_from_pd(&B,b); pd_iso_t **L=pd_build_isos(a,b,&n); CHECK(n==(unsigned)count_iso(&A,&B),"every isomorphism is listed exactly once"); for(i=0;i<n;i++) CHECK(edgemap_is_iso(L[i]),"each listed map is an isomorphism"); pd_free_isos(&n,&L);
  L=pd_build_isos(a,a,&n); B=A; for(i=0;i<n;i++){ pd_iso_t *t=pd_copy_iso(L[i]); unsigned p=pd_iso_period(L[i]); CHECK(p>=1&&p<=8u*M.n,"period"); for(k=1;k<p;k++){ CHECK(!pd_iso_is_e(t),"not the identity before the period"); pd_stareq_iso(t,L[i]); CHECK(edgemap_is_iso(t),"powers are isomorphisms"); } CHECK(pd_iso_is_e(t),"identity at the period"); pd_free_iso(&t); } pd_free_isos(&n,&L); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
void p07_group(void){ rm_shape(&M,sym_arg("shape",2)); rm_orient(&M,sym_choice("flip",0,1)); group(); }
void p07_gsmall(void){ rm_any(&M,sym_arg("n",2)); rm_orient(&M,sym_choice("flip",0,1)); group(); }
void p07_zero(void){ pd_code_t *a=pd_build_unknot(0),*b=pd_build_unknot(0); b->comp[0].tag=sym_range("tb",'A','D'); CHECK(pd_isomorphic(a,b),"0-crossing diagrams are isomorphic"); CHECK(pd_diagram_isotopic(a,b)==(b->comp[0].tag==a->comp[0].tag),"isotopic when the tags agree"); pd_code_free(&a); pd_code_free(&b); sym_reach("end"); }
static void str(const rmap *m,const char *nm,char *t,int var){ int i,p[2*DN]; perm_variant(p,2*m->n,var); for(i=0;i<4*m->n;i++) t[i]='A'+p[m->eno[i]]; t[4*m->n]=0; }
static void strs(int v){ char a[4*DN+1],b[4*DN+1]; str(&M,"a",a,0); str(&N,"b",b,v); CHECK((pd_isomorphic_strings(a,M.n,b,N.n)!=0)==(rm_iso(&M,&N,M_MIRROR)!=0),"the text forms of two diagrams are isomorphic exactly when the diagrams are"); CHECK(!pd_isomorphic_strings(a,M.n,b,N.n+1),"diagrams of different numbers of crossings are not isomorphic"); sym_reach("end"); }
void p07_strings(void){ int n=sym_arg("n",2); rm_any(&M,n); rm_any(&N,n); rm_orient(&M,0); rm_orient(&N,0); strs(sym_choice("var",0,2)); }
void p07_strings3(void){ rm_shape(&M,sym_arg("shape",2)); second(); rm_orient(&M,0); rm_orient(&N,0); strs(sym_choice("var",0,2)); }
