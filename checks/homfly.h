/* reference HOMFLY polynomial by the skein relation, on the half-edge model of diag.h (any diagram, connected or not) */
#ifndef HOMFLY_H
#define HOMFLY_H
#include "diag.h"
#define PR 28   /* exponents -PR..PR */
typedef struct { int la,lb,ma,mb; /* box of the nonzero ones */ int c[2*PR+1][2*PR+1]; } hpoly;   /* [l+PR][m+PR] */
static void hp_zero(hpoly *a){ memset(a,0,sizeof *a); a->la=a->ma=2*PR; a->lb=a->mb=0; }
static void hp_put(hpoly *a,int i,int j,int k){ a->c[i][j]+=k; if(i<a->la) a->la=i; if(i>a->lb) a->lb=i; if(j<a->ma) a->ma=j; if(j>a->mb) a->mb=j; }
static void hp_add(hpoly *a,const hpoly *b,int k,int dl,int dm){ int i,j; for(i=b->la;i<=b->lb;i++) for(j=b->ma;j<=b->mb;j++) if(b->c[i][j]) hp_put(a,i+dl,j+dm,k*b->c[i][j]); }
static void hp_unlink(hpoly *p,int n){ hpoly t; hp_zero(p); hp_put(p,PR,PR,1); while(--n>0){ hp_zero(&t); hp_add(&t,p,-1,1,-1); hp_add(&t,p,-1,-1,-1); memcpy(p,&t,sizeof t); } }
static int hp_eq(const hpoly *a,const hpoly *b){ return memcmp(a->c,b->c,sizeof a->c)==0; }
typedef struct { const rmap *m; char sm[DN]; int sg[DN]; } hstate;
static int hs_over(const hstate *s,int d){ /* is the strand arriving at in-dart d the upper one? */ int nx=rm_ccw(d); if(s->m->in[nx]) return s->sg[d/4]==1; return s->sg[d/4]!=1; }
static int hs_thru(const hstate *s,int d){ /* out-dart by which the strand arriving at d leaves */ if(!s->sm[d/4]) return rm_opp(d); return s->m->in[rm_ccw(d)]? rm_cw(d) : rm_ccw(d); }
/* skein tree: walk the components in turn; the first crossing first met from below is switched and smoothed */
static void hp_skein(hstate *s,hpoly *out){ int n=s->m->n,d,nc=0; char seen[4*DN],met[DN]; memset(seen,0,sizeof seen); memset(met,0,sizeof met);
  for(d=0;d<4*n;d++) if(!s->m->in[d]&&!seen[d]){ int x=d; nc++; do { int y; seen[x]=1; y=s->m->mate[x]; if(!s->sm[y/4]&&!met[y/4]){ met[y/4]=1; if(!hs_over(s,y)){ int c=y/4,sg=s->sg[c]; hpoly a,b; 
          s->sg[c]=1-sg; hp_skein(s,&a); s->sg[c]=sg; s->sm[c]=1; hp_skein(s,&b); s->sm[c]=0; hp_zero(out);
          if(sg==1){ hp_add(out,&a,-1,-2,0); hp_add(out,&b,-1,-1,1); } else { hp_add(out,&a,-1,2,0); hp_add(out,&b,-1,1,1); } return; } } x=hs_thru(s,y); } while(x!=d); }
  hp_unlink(out,nc); }
static void hp_ref(const rmap *m,hpoly *out){ hstate s; int i; s.m=m; memset(s.sm,0,sizeof s.sm); for(i=0;i<m->n;i++) s.sg[i]=m->sign[i]; if(m->n==0) hp_unlink(out,1); else hp_skein(&s,out); }
/* parse what the library prints; returns 0 if it is not a sum of terms  [coefficient][a^{l}][z^{m}] */
static int hp_parse(const char *t,hpoly *out){ hp_zero(out); int first=1; while(*t){ int sg=1,k=0,has=0,l=0,m=0; if(first){ if(*t=='-'){ sg=-1; t++; } } else { if(t[0]!=' '||(t[1]!='+'&&t[1]!='-')||t[2]!=' ') return 0; sg= t[1]=='-'?-1:1; t+=3; } first=0;
    while(*t>='0'&&*t<='9'){ k=10*k+*t++-'0'; has=1; } if(!has) k=1; int any=has; int v; for(v=0;v<2;v++) if(t[0]=="az"[v]&&t[1]=='^'&&t[2]=='{'){ int ng=0,e=0; t+=3; if(*t=='-'){ ng=1; t++; } if(*t<'0'||*t>'9') return 0; while(*t>='0'&&*t<='9') e=10*e+*t++-'0'; if(*t++!='}') return 0; if(ng) e=-e; if(v) m=e; else l=e; any=1; }
    if(!any||l<-PR||l>PR||m<-PR||m>PR) return 0; hp_put(out,l+PR,m+PR,sg*k); } return !first; }
#endif
