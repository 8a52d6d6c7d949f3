/* P16: splitting a disconnected diagram */
//BOUND disjoint unions of two pieces, each any connected planar map with <=2 crossings or a 0-crossing circle, and of two or three shadows up to 6 crossings with up to two circles; records of the pieces interleaved by 4 permutations of crossings, edges and components, component lists starting anywhere; signs symbolic {neg,pos,unset}; tags distinct
//JOB p16_any a=1..2 b=0..1
//JOB p16_any a=2 b=2 tier=thorough
//JOB p16_any a=3 b=0..1 tier=thorough
//JOB p16_shapes a=0,1,2,4,9,11 b=0,1,2,7 z=0
//JOB p16_shapes a=1,6,9 b=1,5 z=1..2
//JOB p16_three
#include "surg.h"
#include "pd_splitdiagram.h"
static rmap K[6]; static int NK; static rmap R;
static void split(int vars){ int k,i,d,v=sym_choice("var",0,vars-1); int n=0,ne=0,nc=0; for(k=0;k<NK;k++){ n+=K[k].n; ne+=K[k].n?2*K[k].n:1; nc+=K[k].n?K[k].ncomps:1; if(K[k].n) sym_signs(&K[k],0,2); }
  int ep[2*DN],cp[DN],kp[DN]; perm_variant(ep,ne,v); perm_variant(cp,n,v?v+1:0); perm_variant(kp,nc,v?v+2:0); pd_code_t *pd=pd_code_new(n+8); pd->ncross=n; pd->nedges=ne; pd->ncomps=nc; pd->nfaces=0; int rot=sym_choice("rot",0,1);
  int co=0,eo=0,ko=0; for(k=0;k<NK;k++){ rmap *m=&K[k]; if(m->n==0){ int e=ep[eo]; pd->edge[e].head=pd->edge[e].tail=PD_UNSET_IDX; pd->edge[e].headpos=pd->edge[e].tailpos=PD_UNSET_POS; pd_component_t *c=&pd->comp[kp[ko]]; c->nedges=1; c->edge=calloc(1,sizeof(pd_idx_t)); c->edge[0]=e; c->tag='A'+ko; m->tag[0]='A'+ko; eo++; ko++; continue; }
    for(i=0;i<m->n;i++){ pd->cross[cp[co+i]].sign=m->sign[i]; for(d=0;d<4;d++) pd->cross[cp[co+i]].edge[d]=ep[eo+m->eno[4*i+d]]; }
    for(d=0;d<4*m->n;d++){ int e=ep[eo+m->eno[d]]; if(m->in[d]){ pd->edge[e].head=cp[co+d/4]; pd->edge[e].headpos=d&3; } else { pd->edge[e].tail=cp[co+d/4]; pd->edge[e].tailpos=d&3; } m->tag[d]='A'+ko+m->comp[d]; }
    for(i=0;i<m->ncomps;i++){ int len=0,first=-1,e; for(e=0;e<2*m->n;e++){ for(d=0;d<4*m->n;d++) if(m->eno[d]==e) break; if(m->comp[d]==i){ if(first<0) first=e; len++; } } pd_component_t *c=&pd->comp[kp[ko+i]]; c->nedges=len; c->tag='A'+ko+i; c->edge=calloc(len,sizeof(pd_idx_t)); for(e=0;e<len;e++) c->edge[e]=ep[eo+first+(e+rot)%len]; }
    co+=m->n; eo+=2*m->n; ko+=m->ncomps; }
  pd_code_t **ch=0; pd_idx_t got=pd_split_diagram(pd,&ch); CHECK((int)got==NK&&ch!=0,"number of pieces"); char used[8]; memset(used,0,sizeof used);
  for(i=0;i<(int)got;i++){ CHECK_VALID(ch[i],"each piece is a consistent diagram"); rm_from_pd(&R,ch[i]); int t=ch[i]->comp[0].tag; for(k=0;k<NK;k++){ int has=0; if(K[k].n==0) has=K[k].tag[0]==t; else for(d=0;d<4*K[k].n;d++) if(K[k].tag[d]==t) has=1; if(has) break; } CHECK(k<NK&&!used[k],"piece belongs to the diagram"); used[k]=1; CHECK(rm_iso(&K[k],&R,M_SIGN|M_ORIENT|M_TAG),"each piece keeps its map, signs, orientations and tags"); pd_code_free(&ch[i]); }
  free(ch); pd_code_free(&pd); sym_reach("end"); }
static void addz(int z){ while(z-->0){ K[NK].n=0; K[NK].ncomps=1; NK++; } }
static void adda(int n){ if(n==0){ addz(1); return; } rm_any(&K[NK],n); rm_orient(&K[NK],0); NK++; }
static void adds(int s){ rm_shape(&K[NK],s); rm_orient(&K[NK],sym_choice("flip",0,1)); NK++; }
void p16_any(void){ NK=0; adda(sym_arg("a",1)); adda(sym_arg("b",1)); split(4); }
void p16_shapes(void){ NK=0; adds(sym_arg("a",1)); addz(sym_arg("z",0)); adds(sym_arg("b",1)); split(4); }
void p16_three(void){ NK=0; adds(1); adds(2); adds(0); addz(1); split(4); }
