/* Independent reference model of link diagrams, used by the diagram harnesses.
   Nothing here calls the library except mk_pd (pd_code_new) and functions whose name ends in _lib. */
#ifndef DIAG_H
#define DIAG_H
#include "sym.h"
#include "plcTopology.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define DN 32
/* planar map: crossing i has darts 4i..4i+3 in ccw order; mate[d] = other end of the edge leaving at d */
typedef struct { int n; int mate[4*DN]; int in[4*DN]; /* 1: strand arrives at this dart */ int sign[DN]; int eno[4*DN]; /* edge number */
                 int comp[4*DN]; int tag[4*DN]; int ncomps; } rmap;

static int rm_opp(int d){ return (d&~3)|((d+2)&3); }
static int rm_ccw(int d){ return (d&~3)|((d+1)&3); }
static int rm_cw(int d){ return (d&~3)|((d+3)&3); }

static int rm_faces(const rmap *m){ /* number of faces */
  char seen[4*DN]; int d,f=0; memset(seen,0,sizeof seen);
  for(d=0;d<4*m->n;d++) if(!seen[d]){ f++; int e=d; while(!seen[e]){ seen[e]=1; e=rm_cw(m->mate[e]); } }
  return f; }
static int rm_connected(const rmap *m){ char s[DN]; int st[DN*4],k=0,c=0,j; if(m->n==0) return 1; memset(s,0,sizeof s); s[0]=1; st[k++]=0;
  while(k){ int v=st[--k]; c++; for(j=0;j<4;j++){ int w=m->mate[4*v+j]/4; if(!s[w]){ s[w]=1; st[k++]=w; } } } return c==m->n; }
static int rm_planar(const rmap *m){ return rm_connected(m) && rm_faces(m)==m->n+2; }

/* orient strands and number edges consecutively along components, components found from the lowest free dart
   (leaving that dart).  flip bit c reverses component c. */
static void rm_orient(rmap *m,unsigned flip){
  int d,e=0,c=0; for(d=0;d<4*m->n;d++) m->comp[d]=-1;
  for(d=0;d<4*m->n;d++) if(m->comp[d]<0){ int o=d; if((flip>>c)&1) o=rm_opp(d); int x=o;
    do { int y=m->mate[x]; m->comp[x]=m->comp[y]=c; m->in[x]=0; m->in[y]=1; m->eno[x]=m->eno[y]=e++; x=rm_opp(y); } while(x!=o); c++; }
  m->ncomps=c; for(d=0;d<4*m->n;d++) m->tag[d]='A'+m->comp[d]; }

/* closure of the braid word w[0..len-1] (values 1..k-1) on k strands */
static void rm_braid(rmap *m,const int *w,int len,int k){
  int top[16],first[16],i,j; m->n=len; for(j=0;j<k;j++){ top[j]=first[j]=-1; }
  for(i=0;i<len;i++){ int s=w[i]-1; /* strands s,s+1 go up; ccw: SE=4i+0 ... choose 0:SW 1:SE 2:NE 3:NW */
    int lo[2]={4*i+0,4*i+1}, up[2]={4*i+3,4*i+2};
    for(j=0;j<2;j++){ if(top[s+j]<0) first[s+j]=lo[j]; else { m->mate[top[s+j]]=lo[j]; m->mate[lo[j]]=top[s+j]; } top[s+j]=up[j]; } }
  for(j=0;j<k;j++){ m->mate[top[j]]=first[j]; m->mate[first[j]]=top[j]; } }

/* named base shapes (all connected, planar) */
static int rm_shape(rmap *m,int id){
  static const struct { int k,len; int w[16]; } B[]={
   {2,1,{1}},                 /* 0: figure eight curve */
   {2,2,{1,1}},               /* 1: Hopf shadow */
   {2,3,{1,1,1}},             /* 2: trefoil */
   {3,2,{1,2}},               /* 3: 2 nugatory crossings */
   {3,4,{1,2,1,2}},           /* 4: figure eight knot */
   {2,4,{1,1,1,1}},           /* 5: (2,4) torus link */
   {3,6,{1,2,1,2,1,2}},       /* 6: Borromean */
   {3,3,{1,1,2}},             /* 7 */
   {4,6,{1,3,2,1,3,2}},       /* 8 */
   {3,4,{1,1,2,2}},           /* 9: 3-chain */
   {4,5,{1,2,3,2,1}},         /* 10 */
   {3,5,{1,1,2,1,2}},         /* 11: Whitehead */
   {4,7,{1,2,2,3,1,2,3}},     /* 12 */
   {5,8,{1,2,3,4,1,2,3,4}},   /* 13 */
   {3,8,{1,1,2,1,2,2,1,2}},   /* 14 */
   {2,7,{1,1,1,1,1,1,1}},     /* 15 */
   {5,8,{1,1,2,2,3,3,4,4}},   /* 16: 5-chain */
   {4,9,{1,2,3,1,2,3,1,2,3}}, /* 17: torus 4,3 */
   {2,12,{1,1,1,1,1,1,1,1,1,1,1,1}}, /* 18 */
   {3,5,{1,1,1,2,2}},         /* 19 */
   {3,10,{1,2,1,2,1,2,1,2,1,2}}, /* 20 */
   {7,6,{1,2,3,4,5,6}},       /* 21 all nugatory */
  };
  if(id<0||id>=(int)(sizeof B/sizeof B[0])) return 0;
  rm_braid(m,B[id].w,B[id].len,B[id].k); return 1; }
#define NSHAPES 22

/* (2,n) torus shadow, n<=DN */
static void rm_torus2(rmap *m,int n){ int w[DN],i; for(i=0;i<n;i++) w[i]=1; rm_braid(m,w,n,2); }

/* every connected planar map with n crossings: dart pairing chosen by forking */
static void rm_any(rmap *m,int n){ int d,i; m->n=n; for(d=0;d<4*n;d++) m->mate[d]=-1;
  for(d=0;d<4*n;d++) if(m->mate[d]<0){ int free_[4*DN],k=0; 
      /* crossings are interchangeable: only the first untouched crossing may be entered, at slot 0..1 only the first slot (rotation) */
      int fresh=-1; for(i=0;i<n;i++){ int j,t=0; for(j=0;j<4;j++) if(m->mate[4*i+j]>=0||4*i+j<=d) t=1; if(!t){ fresh=i; break; } }
      for(i=d+1;i<4*n;i++) if(m->mate[i]<0){ int j,t=0; for(j=0;j<4;j++) if(m->mate[(i&~3)+j]>=0||(i&~3)+j<=d) t=1; if(t) free_[k++]=i; else if(i/4==fresh&&(i&3)==0) free_[k++]=i; }
      int x; if(k==0) sym_assume(0); x=free_[sym_choice("pair",0,k-1)]; m->mate[d]=x; m->mate[x]=d; }
  sym_assume(rm_planar(m)); }

/* random-looking but fixed permutations of 0..n-1, variant 0 = identity */
static void perm_variant(int *p,int n,int v){ int i; for(i=0;i<n;i++) p[i]=i; if(v==0) return; if(v==1){ for(i=0;i<n;i++) p[i]=n-1-i; return; }
  unsigned r=12345u*v+7; for(i=n-1;i>0;i--){ r=r*1103515245u+12345u; int j=(r>>16)%(i+1); int t=p[i]; p[i]=p[j]; p[j]=t; } }

/* build an (un-regenerated) pd_code from m: edge number e is written as ep[e], crossing i at position cp[i] rotated by rot[i] */
static pd_code_t *mk_raw(const rmap *m,const int *ep,const int *cp,int rotv,int mv,int withedges){
  int i,j,d; pd_code_t *pd=pd_code_new(mv); pd->ncross=m->n; 
  for(i=0;i<m->n;i++){ int r=(rotv*(i+1))&3; for(j=0;j<4;j++) pd->cross[cp[i]].edge[j]=ep[m->eno[4*i+((j+r)&3)]]; pd->cross[cp[i]].sign=m->sign[i]; }
  if(withedges){ pd->nedges=2*m->n; for(d=0;d<4*m->n;d++){ int e=ep[m->eno[d]]; int r=(rotv*(d/4+1))&3; int pos=((d&3)-r)&3; 
      if(m->in[d]){ pd->edge[e].head=cp[d/4]; pd->edge[e].headpos=pos; } else { pd->edge[e].tail=cp[d/4]; pd->edge[e].tailpos=pos; } } }
  return pd; }
/* the plain way: build from m (oriented) with signs and regenerate */
static pd_code_t *mk_pd(const rmap *m,int variant,int mv){ int ep[2*DN],cp[DN]; perm_variant(ep,2*m->n,variant); perm_variant(cp,m->n,variant?variant+1:0);
  pd_code_t *pd=mk_raw(m,ep,cp,variant,mv,1); pd_regenerate(pd); return pd; }

/* independent validity check. returns NULL or a reason. */
static const char *ref_bad(const pd_code_t *pd){
  unsigned i,j,n=pd->ncross; int k;
  if(pd->MAXVERTS<n||pd->MAXEDGES<2*n||pd->MAXFACES<n+2) return "sizes";
  if(n==0){ if(pd->nedges!=1||pd->ncomps!=1||pd->nfaces!=2) return "0-crossing counts"; if(pd->comp[0].nedges!=1||pd->comp[0].edge[0]!=0) return "0-crossing comp"; for(i=0;i<2;i++) if(pd->face[i].nedges!=1||pd->face[i].edge[0]!=0) return "0-crossing face"; 
    if(pd->edge[0].head!=PD_UNSET_IDX||pd->edge[0].tail!=PD_UNSET_IDX||pd->edge[0].headpos!=PD_UNSET_POS||pd->edge[0].tailpos!=PD_UNSET_POS) return "0-crossing edge"; return 0; }
  if(pd->nedges!=2*n) return "nedges"; 
#ifdef REF_PARTIAL_FACES
  if(pd->nfaces>n+2) return "nfaces";
#else
  if(pd->nfaces!=n+2) return "nfaces";
#endif
   if(pd->ncomps<1||pd->ncomps>n+1) return "ncomps";
  if(pd->ncomps>pd->MAXCOMPONENTS) return "too many components"; 
  char used[4*DN]; memset(used,0,sizeof used);
  for(i=0;i<n;i++){ if(pd->cross[i].sign>2) return "sign"; for(j=0;j<4;j++) if(pd->cross[i].edge[j]>=2*n) return "cross edge range"; }
  for(i=0;i<2*n;i++){ pd_edge_t e=pd->edge[i]; if(e.head>=n||e.tail>=n||e.headpos>3||e.tailpos>3) return "edge range"; if(used[4*e.head+e.headpos]++) return "dart used twice"; if(used[4*e.tail+e.tailpos]++) return "dart used twice";
    if(pd->cross[e.head].edge[e.headpos]!=i||pd->cross[e.tail].edge[e.tailpos]!=i) return "edge/cross mismatch"; }
  unsigned en=0; for(i=0;i<pd->ncomps;i++){ pd_component_t *c=&pd->comp[i]; if(c->nedges<1) return "empty comp"; for(j=0;j<c->nedges;j++,en++){ if(c->edge[j]!=en) return "comp numbering"; if(en>=2*n) return "comp overflow"; 
      unsigned nx=(j+1<c->nedges)?en+1:c->edge[0]; if(nx>=2*n) return "comp overflow"; pd_edge_t e=pd->edge[en],f=pd->edge[nx]; if(e.head!=f.tail||((e.headpos+2)&3)!=f.tailpos) return "comp not head to tail"; } }
  if(en!=2*n) return "comps do not cover edges";
  for(i=0;i<pd->ncomps;i++){ if(pd->comp[i].tag<'A') return "tag too small"; for(j=0;j<i;j++) if(pd->comp[i].tag==pd->comp[j].tag) return "duplicate tag"; }
  char fs[2][2*DN]; memset(fs,0,sizeof fs); unsigned tot=0;
  for(i=0;i<pd->nfaces;i++){ pd_face_t *f=&pd->face[i]; if(f->nedges<1) return "empty face"; for(j=0;j<f->nedges;j++){ unsigned e=f->edge[j]; if(e>=2*n) return "face edge range"; if(f->orient[j]>1) return "face orient"; if(fs[f->orient[j]][e]++) return "edge twice on faces"; tot++;
      unsigned g=f->edge[(j+1)%f->nedges]; int go=f->orient[(j+1)%f->nedges]; if(g>=2*n) return "face edge range"; if(go>1) return "face orient"; pd_edge_t E=pd->edge[e],G=pd->edge[g]; unsigned hc=f->orient[j]?E.head:E.tail,hp=f->orient[j]?E.headpos:E.tailpos,tc=go?G.tail:G.head,tp=go?G.tailpos:G.headpos; if(hc!=tc||((tp+1)&3)!=hp) return "face turn"; 
      if(e<f->edge[0]) return "face not rotated canonically"; } }
  if(pd->nfaces==n+2&&tot!=4*n) return "faces do not cover";
  for(i=1;i<n;i++){ for(k=0;k<4;k++) if(pd->cross[i-1].edge[k]!=pd->cross[i].edge[k]) break; if(k<4&&pd->cross[i-1].edge[k]>pd->cross[i].edge[k]) return "crossings not sorted"; }
  for(i=1;i<pd->nfaces;i++) if(pd->face[i].nedges>pd->face[i-1].nedges) return "faces not sorted";
  return 0; }

/* map of a (valid) pd */
static void rm_from_pd(rmap *m,const pd_code_t *pd){ unsigned i,j; m->n=pd->ncross; m->ncomps=pd->ncomps; for(i=0;i<pd->ncross;i++) m->sign[i]=pd->cross[i].sign;
  if(pd->ncross==0) { m->tag[0]=pd->comp[0].tag; return; }
  for(i=0;i<pd->nedges;i++){ int h=4*pd->edge[i].head+pd->edge[i].headpos,t=4*pd->edge[i].tail+pd->edge[i].tailpos; m->mate[h]=t; m->mate[t]=h; m->in[h]=1; m->in[t]=0; m->eno[h]=m->eno[t]=i; }
  for(i=0;i<pd->ncomps;i++) for(j=0;j<pd->comp[i].nedges;j++){ int e=pd->comp[i].edge[j]; int h=4*pd->edge[e].head+pd->edge[e].headpos,t=4*pd->edge[e].tail+pd->edge[e].tailpos; m->comp[h]=m->comp[t]=i; m->tag[h]=m->tag[t]=pd->comp[i].tag; } }

enum { M_SIGN=1, M_ORIENT=2, M_TAG=4, M_COMPREV=8 /* orientation preserved or reversed per whole component */, M_MIRROR=16 /* also try orientation reversing maps */, M_LABEL=32 /* edge numbers equal */ };
/* is there a map isomorphism A->B?  Signs and tags may be symbolic: no branching on them. */
static int rm_iso(const rmap *A,const rmap *B,int flags){
  int n=A->n,s,i,mir; if(B->n!=n) return 0; if(n==0) return (flags&M_TAG)? A->tag[0]==B->tag[0] : 1;
  int res=0; for(mir=0;mir<=((flags&M_MIRROR)?1:0);mir++) for(s=0;s<4*n;s++){
    int f[4*DN],g[4*DN],st[4*DN],k=0,ok=1; for(i=0;i<4*n;i++) f[i]=g[i]=-1; f[0]=s; g[s]=0; st[k++]=0;
    while(k&&ok){ int d=st[--k],x=f[d]; int nd[2]={rm_ccw(d),A->mate[d]}, nx[2]={mir?rm_cw(x):rm_ccw(x),B->mate[x]};
      for(i=0;i<2;i++){ if(f[nd[i]]<0){ if(g[nx[i]]>=0){ ok=0; break; } f[nd[i]]=nx[i]; g[nx[i]]=nd[i]; st[k++]=nd[i]; } else if(f[nd[i]]!=nx[i]){ ok=0; break; } } }
    if(!ok) continue; for(i=0;i<4*n;i++) if(f[i]<0){ ok=0; } if(!ok) continue;
    int c=1,rev[4*DN]; for(i=0;i<4*n;i++) rev[i]=-1;
    for(i=0;i<4*n&&ok;i++){ int x=f[i];
      if(flags&M_ORIENT){ if(A->in[i]!=B->in[x]) ok=0; }
      if(flags&M_COMPREV){ int r=A->in[i]!=B->in[x]; if(rev[A->comp[i]]<0) rev[A->comp[i]]=r; else if(rev[A->comp[i]]!=r) ok=0; }
      if(flags&M_LABEL){ if(A->eno[i]!=B->eno[x]) ok=0; } }
    if(!ok) continue;
    for(i=0;i<4*n;i++){ int x=f[i]; if(flags&M_TAG) c&=(A->tag[i]==B->tag[x]); if((flags&M_SIGN)&&(i&3)==0) c&=(A->sign[i/4]==B->sign[x/4]); }
    res|=c; }
  return res; }
static int pd_ref_iso(const pd_code_t *A,const pd_code_t *B,int flags){ static rmap a,b; rm_from_pd(&a,A); rm_from_pd(&b,B); return rm_iso(&a,&b,flags); }

static void sym_signs(rmap *m,int lo,int hi){ int i; for(i=0;i<m->n;i++) m->sign[i]=sym_range("sign",lo,hi); }
#define CHECK_VALID(pd,msg) do { const char *b_=ref_bad(pd); CHECK(b_==0,msg); CHECK(pd_ok(pd),msg " (library's own check)"); } while(0)
/* exact structural equality of two diagrams (tags, signs, numbering, orientation, faces) */
static int pd_same(const pd_code_t *a,const pd_code_t *b){ unsigned i,j; int c=1; if(a->ncross!=b->ncross||a->nedges!=b->nedges||a->ncomps!=b->ncomps||a->nfaces!=b->nfaces) return 0;
  for(i=0;i<a->ncross;i++){ for(j=0;j<4;j++) if(a->cross[i].edge[j]!=b->cross[i].edge[j]) return 0; c&=(a->cross[i].sign==b->cross[i].sign); }
  for(i=0;i<a->nedges;i++) if(memcmp(&a->edge[i],&b->edge[i],sizeof(pd_edge_t))) return 0;
  for(i=0;i<a->ncomps;i++){ if(a->comp[i].nedges!=b->comp[i].nedges) return 0; for(j=0;j<a->comp[i].nedges;j++) if(a->comp[i].edge[j]!=b->comp[i].edge[j]) return 0; c&=(a->comp[i].tag==b->comp[i].tag); }
  for(i=0;i<a->nfaces;i++){ if(a->face[i].nedges!=b->face[i].nedges) return 0; for(j=0;j<a->face[i].nedges;j++) if(a->face[i].edge[j]!=b->face[i].edge[j]||a->face[i].orient[j]!=b->face[i].orient[j]) return 0; }
  return c; }
#endif
