/* P40: standard diagrams */
//BOUND every size up to 12 crossings (16 thorough): twist knots, (2,q) torus links, chains, unknots and wyes, and every call outside the allowed sizes
//STUB clock, signal : no time passes
//JOB p40_twist hi=10
//JOB p40_torus hi=10
//JOB p40_chain hi=6
//JOB p40_unknot hi=10
//JOB p40_wye hi=8
//JOB p40_bad what=0..3 noend=1
//JOB p40_twist hi=14 tier=thorough
//JOB p40_torus hi=16 tier=thorough
//JOB p40_chain hi=8 tier=thorough
//JOB p40_unknot hi=16 tier=thorough
//JOB p40_wye hi=12 tier=thorough
#include "homfly.h"
#ifndef SYM_ENTRY
long clock(void){ return 0; }
void *signal(int s,void *h){ return 0; }
#endif
static rmap A; static hpoly want,got; static int deg[64];
static int over_in(const rmap *m,int c,int sg){ int p; for(p=0;p<4;p++) if(m->in[4*c+p]&&m->in[4*c+((p+1)&3)]) break; return sg==1?p:(p+1)&3; }
static int alternates(const pd_code_t *pd){ unsigned e; for(e=0;e<pd->nedges;e++){ pd_edge_t E=pd->edge[e]; int ho=over_in(&A,E.head,pd->cross[E.head].sign)==(int)E.headpos,to=((over_in(&A,E.tail,pd->cross[E.tail].sign)+2)&3)==(int)E.tailpos; if(ho==to) return 0; } return 1; }
static void basics(pd_code_t *pd,int n,int nc){ unsigned i; CHECK(pd!=0,"a diagram is built"); CHECK((int)pd->ncross==n,"number of crossings"); CHECK(ref_bad(pd)==0,"the diagram is consistent"); CHECK((int)pd->ncomps==nc,"number of components"); for(i=0;i<pd->ncross;i++) CHECK(pd->cross[i].sign==PD_POS_ORIENTATION||pd->cross[i].sign==PD_NEG_ORIENTATION,"crossing signs are set"); rm_from_pd(&A,pd); memset(deg,0,sizeof deg); for(i=0;i<pd->nfaces;i++){ CHECK(pd->face[i].nedges<64,"face"); deg[pd->face[i].nedges]++; } }
static void unk(pd_code_t *pd){ hp_ref(&A,&got); hp_unlink(&want,1); CHECK(hp_eq(&want,&got),"the diagram is unknotted"); }
static void done(pd_code_t *pd){ pd_code_free(&pd); sym_reach("end"); }
static int sz(const char *nm,int lo){ int n=sym_range(nm,lo,sym_arg("hi",6)); return sym_concretize(n); }
static int want_deg[64]; static void degs(void){ int i; for(i=0;i<64;i++) CHECK(deg[i]==want_deg[i],"sizes of the faces"); }
void p40_twist(void){ int n=sz("n",1); pd_code_t *pd=pd_build_twist_knot(n); basics(pd,n+2,1); CHECK(alternates(pd),"a twist knot alternates"); want_deg[2]+=n; want_deg[3]+=2; want_deg[n+1]+=2; degs(); done(pd); }
void p40_torus(void){ int q=sz("q",2),i; pd_code_t *pd=pd_build_torus_knot(2,q); basics(pd,q,q%2?1:2); CHECK(alternates(pd),"a torus link alternates"); for(i=0;i<q;i++) CHECK(pd->cross[i].sign==PD_POS_ORIENTATION,"all crossings positive"); want_deg[2]+=q; want_deg[q]+=2; degs(); done(pd); }
void p40_chain(void){ int n=sz("n",1),i,j,d[16]={0},k2=0; pd_code_t *pd=pd_build_simple_chain(n); basics(pd,2*(n-1),n); if(n>1){ int lk[16][16]; memset(lk,0,sizeof lk); for(i=0;i<2*(n-1);i++){ int a=A.comp[4*i],b=A.comp[4*i+1]; CHECK(a!=b,"no component crosses itself"); lk[a][b]+= pd->cross[i].sign==1?1:-1; lk[b][a]+= pd->cross[i].sign==1?1:-1; } for(i=0;i<n;i++) for(j=0;j<n;j++) if(lk[i][j]){ CHECK(lk[i][j]==2||lk[i][j]==-2,"consecutive components are linked once"); d[i]++; } for(i=0;i<n;i++){ CHECK(d[i]==1||d[i]==2,"a component is linked with one or two others"); k2+= d[i]==1; } CHECK(k2==2,"the chain has two ends"); } done(pd); }
void p40_unknot(void){ int n=sz("n",0),i; pd_code_t *pd=pd_build_unknot(n); basics(pd,n,1); for(i=0;i<n;i++) CHECK(pd->cross[i].sign==PD_POS_ORIENTATION,"all crossings positive"); if(n){ unk(pd); want_deg[1]+=2; want_deg[2]+=n-1; want_deg[2*n]++; degs(); } done(pd); }
void p40_wye(void){ int a=sz("a",0),b=sz("b",0),c=sz("c",0); sym_assume(a+b+c<=sym_arg("hi",6)); int n=a+b+c+3; pd_code_t *pd=pd_build_unknot_wye(a,b,c); basics(pd,n,1); unk(pd); want_deg[1]+=3; want_deg[2]+=a+b+c; want_deg[3]++; want_deg[2*n]++; degs(); done(pd); }
void p40_bad(void){ int w=sym_arg("what",0); sym_expect_exit(1); if(w==0) pd_build_twist_knot(0); if(w==1){ int p=sym_range("p",0,9); sym_assume(p!=2); pd_build_torus_knot(p,sym_range("q",2,9)); } if(w==2) pd_build_torus_knot(2,sym_range("q",0,1)); if(w==3) pd_build_simple_chain(0); CHECK(0,"a size that does not exist is refused"); }
