/* reference surgery on planar maps (see diag.h) */
#ifndef SURG_H
#define SURG_H
#include "diag.h"
typedef struct { int np; rmap p[4]; int pc[DN+2]; /* piece of old component */ } pieces;
static void rm_copy(rmap *a,const rmap *b){ memcpy(a,b,sizeof *a); }
/* remove the crossings marked in S: strands run straight through; the result falls into connected pieces */
static void rm_delete(const rmap *m,const char *S,pieces *out){ int d,i,j,nw[4*DN],pcx[DN]; for(i=0;i<m->n;i++) pcx[i]=-1; for(i=0;i<m->ncomps;i++) out->pc[i]=-1; out->np=0;
  for(d=0;d<4*m->n;d++) if(!S[d/4]){ int x=m->mate[d]; while(S[x/4]) x=m->mate[rm_opp(x)]; nw[d]=x; }
  for(i=0;i<m->n;i++) if(!S[i]&&pcx[i]<0){ int p=out->np++,st[DN*4],k=0; st[k++]=i; pcx[i]=p; while(k){ int v=st[--k]; for(j=0;j<4;j++){ int w=nw[4*v+j]/4; if(pcx[w]<0){ pcx[w]=p; st[k++]=w; } } } }
  for(j=0;j<out->np;j++){ int id[DN],c=0; rmap *r=&out->p[j]; for(i=0;i<m->n;i++) if(pcx[i]==j) id[i]=c++; r->n=c; r->ncomps=0; for(i=0;i<m->n;i++) if(pcx[i]==j){ int q=id[i],t; r->sign[q]=m->sign[i]; for(t=0;t<4;t++){ int o=4*i+t; r->mate[4*q+t]=4*id[nw[o]/4]+(nw[o]&3); r->in[4*q+t]=m->in[o]; r->tag[4*q+t]=m->tag[o]; r->comp[4*q+t]=m->comp[o]; r->eno[4*q+t]=m->eno[o]; out->pc[m->comp[o]]=j; } } }
  for(d=0;d<4*m->n;d++) if(out->pc[m->comp[d]]<0){ int j2=out->np++; out->pc[m->comp[d]]=j2; out->p[j2].n=0; out->p[j2].ncomps=1; out->p[j2].tag[0]=m->tag[d]; } }
static void rm_join(rmap *m,int a,int b){ m->mate[a]=b; m->mate[b]=a; }
/* recompute in/comp/tag for new darts of a map in which the darts < known are right and the strands pass through them */
static void rm_propagate(rmap *m,int known){ int ch=1,d; for(d=known;d<4*m->n;d++) m->in[d]=-1; while(ch){ ch=0; for(d=0;d<4*m->n;d++) if(m->in[d]>=0){ int x=m->mate[d],o=rm_opp(d); if(m->in[x]<0){ m->in[x]=!m->in[d]; m->tag[x]=m->tag[d]; m->comp[x]=m->comp[d]; ch=1; } if(m->in[o]<0){ m->in[o]=!m->in[d]; m->tag[o]=m->tag[d]; m->comp[o]=m->comp[d]; ch=1; } } } }
/* the darts of position k on face f of a library diagram, directed with the face on the left: tail dart, head dart */
static void fdarts(const pd_code_t *pd,int f,int k,int *t,int *h){ pd_edge_t E=pd->edge[pd->face[f].edge[k]]; int a=4*E.tail+E.tailpos,b=4*E.head+E.headpos; if(pd->face[f].orient[k]==PD_POS_ORIENTATION){ *t=a; *h=b; } else { *t=b; *h=a; } }
static void rm_tags(pd_code_t *pd){ unsigned i; for(i=0;i<pd->ncomps;i++) pd->comp[i].tag='A'+(i*5+2)%11; }
#endif
