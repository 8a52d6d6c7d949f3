/* reference: tangles (discs bounded by a loop through faces and edges) in a diagram */
#ifndef TANGLE_H
#define TANGLE_H
#include "diag.h"
static int TF[4*DN]; /* face to the left of each dart */ static int TK; static int TD[16]; /* darts crossed by the boundary, from left to right; their far ends lie inside */
static char TIN[DN]; /* crossings inside */
static void tg_faces(const rmap *a,const pd_code_t *pd){ unsigned i,j; for(i=0;i<pd->nfaces;i++) for(j=0;j<pd->face[i].nedges;j++){ pd_edge_t e=pd->edge[pd->face[i].edge[j]]; int d= pd->face[i].orient[j]==PD_POS_ORIENTATION? 4*e.tail+e.tailpos : 4*e.head+e.headpos; TF[d]=i; } }
static int tg_pos(const rmap *a,int d,int x){ int p=0; while(d!=x){ d=rm_cw(a->mate[d]); p++; } return p; } /* place of x on the boundary of the face left of d */
/* chooses a loop of k edges starting anywhere; 0 unless it is a simple loop with distinct edges */
static int tg_choose(const rmap *a,int k){ int i,j; TK=k; for(i=0;i<k;i++){ TD[i]=sym_choice("dart",0,4*a->n-1); for(j=0;j<i;j++) if(TD[j]==TD[i]||TD[j]==a->mate[TD[i]]) return 0; if(i&&TF[TD[i]]!=TF[a->mate[TD[i-1]]]) return 0; } if(TF[TD[0]]!=TF[a->mate[TD[k-1]]]) return 0;
  for(i=0;i<k;i++) for(j=0;j<i;j++) if(TF[TD[i]]==TF[TD[j]]){ int x=a->mate[TD[(i+k-1)%k]],y=TD[i],u=a->mate[TD[(j+k-1)%k]],v=TD[j],py=tg_pos(a,x,y),pu=tg_pos(a,x,u),pv=tg_pos(a,x,v); if((pu<py)!=(pv<py)) return 0; } return 1; }
static int tg_bdy(const rmap *a,int d){ int i; for(i=0;i<TK;i++) if(TD[i]==d||a->mate[TD[i]]==d) return i; return -1; }
static int tg_fill(const rmap *a){ int st[DN],k=0,i,d; memset(TIN,0,sizeof TIN); for(i=0;i<TK;i++){ int c=a->mate[TD[i]]/4; if(!TIN[c]){ TIN[c]=1; st[k++]=c; } } while(k){ int c=st[--k]; for(d=4*c;d<4*c+4;d++) if(tg_bdy(a,d)<0){ int e=a->mate[d]/4; if(!TIN[e]){ TIN[e]=1; st[k++]=e; } } } for(i=0;i<TK;i++) if(TIN[TD[i]/4]) return 0; return 1; }
static pd_tangle_t *tg_make(const rmap *a){ pd_tangle_t *t=pd_tangle_new(TK); int i; for(i=0;i<TK;i++){ t->edge[i]=a->eno[TD[i]]; t->face[i]=TF[TD[i]]; } return t; }
static const char *tg_bad(const rmap *a,const pd_tangle_t *t){ int i,d,n=0,s=0; if((int)t->nedges!=TK||(int)t->nstrands!=TK/2) return "sizes"; for(i=0;i<TK;i++){ if((int)t->edge[i]!=a->eno[TD[i]]||(int)t->face[i]!=TF[TD[i]]) return "boundary changed"; int in_=a->in[a->mate[TD[i]]]; if(t->edge_bdy_or[i]!=(in_?in:out)) return "edge leads in or out"; }
  for(i=0;i<TK;i++) if(a->in[a->mate[TD[i]]]){ int c=1,e; d=a->mate[TD[i]]; while(1){ d=rm_opp(d); c++; e=tg_bdy(a,d); if(e>=0) break; d=a->mate[d]; } if(s>=TK/2) return "strands"; if((int)t->strand[s].start_edge!=i||(int)t->strand[s].end_edge!=e||(int)t->strand[s].nedges!=c||(int)t->strand[s].comp!=a->comp[d]) return "strand"; s++; } if(s!=TK/2) return "strands";
  for(i=0;i<a->n;i++) if(TIN[i]){ if(n>=(int)t->ninterior_cross||(int)t->interior_cross[n]!=i) return "inner crossings"; n++; } if(n!=(int)t->ninterior_cross) return "inner crossings";
  char seen[2*DN]; memset(seen,0,sizeof seen); for(d=0;d<4*a->n;d++) if(TIN[d/4]&&tg_bdy(a,d)<0) seen[a->eno[d]]=1; n=0; for(i=0;i<2*a->n;i++) if(seen[i]){ if(n>=(int)t->ninterior_edges||(int)t->interior_edge[n]!=i) return "inner edges"; n++; } if(n!=(int)t->ninterior_edges) return "inner edges"; return 0; }
#endif
