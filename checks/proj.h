/* reference: the diagram of a closed polygonal link seen from above, by intersecting every pair of edges */
#ifndef PROJ_H
#define PROJ_H
#include "diag.h"
#include "curve.h"
typedef struct { int cmp[2],ed[2]; double s[2],d; int over; /* 0/1: which strand is above */ int sign; } xing;
static xing XG[DN]; static int NX; static double proj_zm=0; /* margin of heights, if larger */
static double cr2(const double *a,const double *b,const double *c){ return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]); }
static int pos_margin(double x,double m){ /* sign of x; |x|<m lies outside the bound */ if(x>=m) return 1; sym_assume(x<=-m); return -1; }
static int proj_crossings(const rcurve *r,double m){ int a,b,i,j; NX=0; for(a=0;a<r->nc;a++) for(b=a;b<r->nc;b++) for(i=0;i<r->p[a].nv;i++) for(j=0;j<r->p[b].nv;j++){ int na=r->p[a].nv,nb=r->p[b].nv; if(a==b&&(j<=i+1||(i==0&&j==na-1))) continue;
    const double *A0=r->p[a].v[i],*A1=r->p[a].v[(i+1)%na],*B0=r->p[b].v[j],*B1=r->p[b].v[(j+1)%nb];
    double q0=cr2(A0,A1,B0),q1=cr2(A0,A1,B1),q2=cr2(B0,B1,A0),q3=cr2(B0,B1,A1); if(pos_margin(q0,m)*pos_margin(q1,m)>0||pos_margin(q2,m)*pos_margin(q3,m)>0) continue;
    if(NX>=DN) sym_assume(0); xing *x=&XG[NX++]; x->cmp[0]=a; x->cmp[1]=b; x->ed[0]=i; x->ed[1]=j; x->s[0]=q2/(q2-q3); x->s[1]=q0/(q0-q1);
    double z0=A0[2]+x->s[0]*(A1[2]-A0[2]),z1=B0[2]+x->s[1]*(B1[2]-B0[2]); x->over= pos_margin(z0-z1,proj_zm>m?proj_zm:m)>0?0:1; double t=(A1[0]-A0[0])*(B1[1]-B0[1])-(A1[1]-A0[1])*(B1[0]-B0[0]); int ts= q1>q0? 1:-1; (void)t; x->sign= (x->over==0? ts:-ts)>0; }
  return NX; }
/* returns 0 if some component meets no crossing */
static int proj_map(const rcurve *r,rmap *M,double m){ int n=proj_crossings(r,m),c,i,k,e=0; memset(M,0,sizeof *M); M->n=n; M->ncomps=r->nc; for(i=0;i<n;i++) M->sign[i]=XG[i].sign;
  for(c=0;c<r->nc;c++){ int q[2*DN],nq=0; for(i=0;i<n;i++) for(k=0;k<2;k++) if(XG[i].cmp[k]==c) q[nq++]=2*i+k; if(!nq) return 0;
    for(i=1;i<nq;i++){ int v=q[i],j=i-1; xing *x=&XG[v>>1]; while(j>=0){ xing *y=&XG[q[j]>>1]; int ey=y->ed[q[j]&1],ex=x->ed[v&1]; int gt= ey!=ex? ey>ex : pos_margin(y->s[q[j]&1]-x->s[v&1],m)>0; if(!gt) break; q[j+1]=q[j]; j--; } q[j+1]=v; }
    for(i=0;i<nq;i++){ int u=q[i],w=q[(i+1)%nq]; xing *x=&XG[u>>1],*y=&XG[w>>1]; /* out dart of u, in dart of w: under strand enters at 0; over strand at 3 (positive) or 1 */
      int od= (u&1)==x->over? (x->sign?1:3):2, id=(w&1)==y->over? (y->sign?3:1):0; od+=4*(u>>1); id+=4*(w>>1); M->mate[od]=id; M->mate[id]=od; M->in[od]=0; M->in[id]=1; M->eno[od]=M->eno[id]=e++; M->comp[od]=M->comp[id]=c; M->tag[od]=M->tag[id]='A'+c; } }
  return 1; }
#endif
