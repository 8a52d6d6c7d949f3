/* P33: thickness, struts and minimum radius of curvature */
//BOUND two components (triangles, squares, open arcs, single segments) of 2..9 edges in total, the second translated by an arbitrary amount (within +-4) along one of several directions, so that edges pass in every relative position; minimum radius: polygons of 3..4 vertices with one arbitrary coordinate (within +-1); arbitrary stiffness in [1/4,8]; list capacities 0..12; exact reals, tolerance 1e-6; degenerate positions where a strut is created or destroyed are left open by a margin of 1e-9
//JOB p33_seg k=0..5 d=0..3 forksel=1
//JOB p33_link k=0 d=0..3 forksel=1 btime=200 qtime=2000
//JOB p33_link k=1 d=0,1 forksel=1 btime=200 qtime=2000
//JOB p33_link k=3 d=1..3 forksel=1 btime=200 qtime=2000
//JOB p33_link k=1,3 d=2,3 w=0..3 forksel=1 btime=200 qtime=2000
//JOB p33_link k=4 d=0..3 w=1..3 forksel=1 btime=200 qtime=2000
//JOB p33_link k=5 d=0..3 w=0..3 forksel=1 btime=200 qtime=2000
//JOB p33_link k=1 d=2,3 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_link k=3 d=0 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_link k=2,4,5 d=0..3 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_list k=0 d=0..1 m=0..2 forksel=1 btime=200 qtime=2000
//JOB p33_list k=1 d=0 m=0..2 forksel=1 btime=200 qtime=2000
//JOB p33_list k=1 d=1 m=0..1 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_list k=1 d=1 m=2 forksel=1 btime=200 qtime=2000
//JOB p33_list k=3 d=1 m=0..2 forksel=1 btime=200 qtime=2000
//JOB p33_list k=2..5 d=0,2 m=0..2 w=1..3 forksel=1 btime=200 qtime=2000
//JOB p33_list k=3 d=0 m=0..2 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_list k=2,4,5 d=0..3 m=0..2 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_self k=0..3 forksel=1
//JOB p33_mr k=0,2,3 q=0..2 forksel=1
//JOB p33_mr k=1 q=0..2 tier=thorough forksel=1
//JOB p33_mrl k=0..3 m=0..3 forksel=1
//JOB p33_all k=0,1,3 d=0 l=0..2 w=0..3 forksel=1 btime=200 qtime=1000
//JOB p33_all k=2 d=0 l=0..2 w=0..3 tier=thorough forksel=1 btime=200 qtime=1000
//JOB p33_all k=1 d=0..1 l=0..2 tier=thorough forksel=1 btime=200 qtime=1000
//JOB p33_all k=3 d=0 l=0..2 tier=thorough forksel=1 btime=200 qtime=2000
//JOB p33_bad
#include "curve.h"
#include "octrope.h"
#include <float.h>
typedef struct { int nv,open; double v[5][3]; } shp;
static const shp SH[]={ {2,1,{{-1,0,0},{1,0,0}}}, {2,1,{{0,-1,0.5},{0.25,1,1}}}, {3,0,{{0,0,0},{4,0,0},{0,3,1}}}, {4,0,{{1,1,0},{-1,1,0.25},{-1,-1,0},{1,-1,0.25}}}, {3,1,{{-2,0,0},{0,1,0},{2,0,1}}}, {4,1,{{0,0,0},{1,0,0},{1,1,0},{1,1,1}}}, {2,1,{{2,0,0},{-1,0.5,0.25}}}, {5,1,{{0,0,0},{0,0,2},{3,0,2},{3,0,1},{3,2,1}}} };
static const int PR[6][2]={{0,1},{2,6},{2,3},{4,1},{5,4},{7,6}};
static const double DR[4][3]={{0,0,1},{1,0,0},{0,1,0},{1,0.5,0.25}};
static const double OF[4][3]={{0.3,0.1,0},{0,0.2,0.7},{0.4,0,1.1},{0.1,-0.3,0.6}};
static void put(rcurve *r,int c,const shp *s,const double *o,const double *dir,double t){ int i,k; r->p[c].nv=s->nv; r->p[c].open=s->open; for(i=0;i<s->nv;i++) for(k=0;k<3;k++) r->p[c].v[i][k]=s->v[i][k]+(o?o[k]:0)+(dir?dir[k]*t:0); }
static double bnd(const char *n,double lo,double hi){ double x=sym_real(n); sym_assume(x>=lo&&x<=hi); return x; }
static int ned(const rcomp *p){ return p->open?p->nv-1:p->nv; }
static double dot3(const double *a,const double *b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static void sub3(double *o,const double *a,const double *b){ int k; for(k=0;k<3;k++) o[k]=a[k]-b[k]; }
static void at(const rcomp *p,int e,double s,double *o){ int k; const double *a=p->v[e],*b=p->v[(e+1)%p->nv]; for(k=0;k<3;k++) o[k]=a[k]+s*(b[k]-a[k]); }
/* squared distance of a point and a segment / of two segments */
static double pseg(const double *x,const double *a,const double *b){ double d[3],w[3],q[3],t; int k; sub3(d,b,a); sub3(w,x,a); t=dot3(d,w)/dot3(d,d); if(t<0) t=0; else if(t>1) t=1; for(k=0;k<3;k++) q[k]=w[k]-t*d[k]; return dot3(q,q); }
static int inter(const double *a,const double *b,const double *c,const double *e,double *s,double *t,double *d2){ double u[3],v[3],w[3],q[3],A,B,C,D,F,n; int k; sub3(u,b,a); sub3(v,e,c); sub3(w,a,c); A=dot3(u,u); B=dot3(u,v); C=dot3(v,v); D=dot3(u,w); F=dot3(v,w); n=A*C-B*B; if(n<1e-9) return 0; *s=(B*F-C*D)/n; *t=(A*F-B*D)/n; for(k=0;k<3;k++) q[k]=w[k]+*s*u[k]-*t*v[k]; *d2=dot3(q,q); return 1; }
static double sseg(const double *a,const double *b,const double *c,const double *e){ double m=pseg(a,c,e),x,s,t; x=pseg(b,c,e); if(x<m) m=x; x=pseg(c,a,b); if(x<m) m=x; x=pseg(e,a,b); if(x<m) m=x; if(inter(a,b,c,e,&s,&t,&x)&&s>0&&s<1&&t>0&&t<1&&x<m) m=x; return m; }
static double cdist2(const rcomp *p,const rcomp *q){ int i,j; double m=-1; for(i=0;i<ned(p);i++) for(j=0;j<ned(q);j++){ double x=sseg(p->v[i],p->v[(i+1)%p->nv],q->v[j],q->v[(j+1)%q->nv]); if(m<0||x<m) m=x; } return m; }
/* moving from the point at s on edge e towards either side does not bring it nearer to x */
static int stat(const rcomp *p,int e,double s,const double *x,double tol){ double o[3],w[3],u[3]; int k; at(p,e,s,o); sub3(w,o,x); sub3(u,p->v[(e+1)%p->nv],p->v[e]); double g=dot3(w,u); if(s>0&&s<1) return g<=tol&&g>=-tol; if(s<=0){ if(g<-tol) return 0; if(p->open&&e==0) return 1; sub3(u,p->v[e],p->v[(e+p->nv-1)%p->nv]); return dot3(w,u)<=tol; } if(g>tol) return 0; if(p->open&&e==p->nv-2) return 1; sub3(u,p->v[(e+2)%p->nv],p->v[(e+1)%p->nv]); return dot3(w,u)>=-tol; }
static void strut_ok(plCurve *L,const rcurve *r,const octrope_strut *s){ double a[3],b[3],w[3]; int i; for(i=0;i<2;i++){ CHECK(s->component[i]>=0&&s->component[i]<r->nc,"component of a strut"); CHECK(s->lead_vert[i]>=0&&s->lead_vert[i]<ned(&r->p[s->component[i]]),"edge of a strut"); CHECK(s->position[i]>=0&&s->position[i]<=1,"position on the edge"); } const rcomp *p=&r->p[s->component[0]],*q=&r->p[s->component[1]]; at(p,s->lead_vert[0],s->position[0],a); at(q,s->lead_vert[1],s->position[1],b); sub3(w,a,b); NEAR(s->length*s->length,dot3(w,w),1e-6,"length of a strut"); CHECK(s->length>=0,"length of a strut"); CHECK(stat(p,s->lead_vert[0],s->position[0],b,1e-6)&&stat(q,s->lead_vert[1],s->position[1],a,1e-6),"a strut is a local minimum of the distance");
  plc_vector se[2]; int k; octrope_strut_ends(L,s,se); for(k=0;k<3;k++){ NEAR(se[0].c[k],a[k],1e-6,"ends of a strut"); NEAR(se[1].c[k],b[k],1e-6,"ends of a strut"); } if(s->component[0]==s->component[1]){ int d=abs(s->lead_vert[0]-s->lead_vert[1]); CHECK(d>=2&&(p->open||d<=p->nv-2),"no strut between neighbours"); } }
static double shortest_self2(const rcomp *p){ double m=-1; int i,j,n=ned(p); for(i=0;i<n;i++) for(j=0;j<i-1;j++){ double s[2],t[2],x; int k; if(!p->open&&i==n-1&&j==0) continue; 
    /* candidate pairs: interior-interior, and every end against the other edge */
    double S[5],T[5]; int c=0; if(inter(p->v[i],p->v[(i+1)%p->nv],p->v[j],p->v[(j+1)%p->nv],&S[0],&T[0],&x)&&S[0]>0&&S[0]<1&&T[0]>0&&T[0]<1) c=1; else { for(k=0;k<4;k++){ const double *pt=k==0?p->v[i]:k==1?p->v[(i+1)%p->nv]:k==2?p->v[j]:p->v[(j+1)%p->nv]; int o=k<2?j:i; double d[3],w[3]; sub3(d,p->v[(o+1)%p->nv],p->v[o]); sub3(w,pt,p->v[o]); double u=dot3(d,w)/dot3(d,d); if(u<0) u=0; else if(u>1) u=1; if(k<2){ S[c]=k; T[c]=u; } else { S[c]=u; T[c]=k-2; } c++; } }
    for(k=0;k<c;k++){ double a[3],b[3],w[3]; at(p,i,S[k],a); at(p,j,T[k],b); if(!stat(p,i,S[k],b,1e-9)||!stat(p,j,T[k],a,1e-9)) continue; sub3(w,a,b); double y=dot3(w,w); if(m<0||y<m) m=y; } (void)s; (void)t; } return m; }
static double ref_short2(const rcurve *r){ int i,j; double m=-1,x; for(i=0;i<r->nc;i++) for(j=0;j<i;j++){ x=cdist2(&r->p[i],&r->p[j]); if(m<0||x<m) m=x; } for(i=0;i<r->nc;i++){ x=shortest_self2(&r->p[i]); if(x>=0&&(m<0||x<m)) m=x; } return m; }
static const double WS[4]={-3.5,-1.25,0.5,2.75};
static void mk2(rcurve *r,int k,int d){ int w=sym_arg("w",-1); double t=w<0?bnd("t",-4,4):bnd("t",WS[w],WS[w]+0.0625); memset(r,0,sizeof *r); r->nc=2; put(r,0,&SH[PR[k][0]],0,0,0); put(r,1,&SH[PR[k][1]],OF[d],DR[d],t); }
/* two segments */
void p33_seg(void){ int k=sym_arg("k",0),d=sym_arg("d",0); static const int A[6]={0,0,1,1,6,6},B[6]={1,6,6,0,0,1}; rcurve r; memset(&r,0,sizeof r); r.nc=2; put(&r,0,&SH[A[k]],0,0,0); put(&r,1,&SH[B[k]],OF[d],DR[d],bnd("t",-4,4)); plCurve *L=rc_make(&r); double x=octrope_poca(L,0,0); CHECK(x>=0,"distance"); NEAR(x*x,cdist2(&r.p[0],&r.p[1]),1e-6,"distance of two segments"); CHECK(octrope_error_num==0,"no error"); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
void p33_link(void){ rcurve r; mk2(&r,sym_arg("k",0),sym_arg("d",0)); plCurve *L=rc_make(&r); double x=octrope_poca(L,0,0); CHECK(x>=0,"distance"); NEAR(x*x,ref_short2(&r),1e-6,"shortest strut"); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
/* strut lists: m=0 everything below a cutoff, m=1 within epsilon of the shortest, m=2 small list */
void p33_list(void){ int m=sym_arg("m",0),i,j,n; rcurve r; mk2(&r,sym_arg("k",0),sym_arg("d",0)); plCurve *L=rc_make(&r); int cap=m==2?1:12; octrope_strut *st=malloc(cap*sizeof *st); double sh=0,cut=m==0?2.5:0,eps=m==1?0.75:m==2?0.1:0,lim; n=octrope_struts(L,cut,eps,st,cap,&sh,0,0); CHECK(n>=0&&n<=cap,"number of struts within the capacity"); double s2=ref_short2(&r); if(m){ NEAR(sh*sh,s2,1e-6,"shortest strut"); CHECK(n>=1,"the shortest strut is listed"); } lim=m==0?cut:sh+eps; for(i=0;i<n;i++){ strut_ok(L,&r,&st[i]); CHECK(st[i].length<=lim+1e-9,"listed struts are short enough"); for(j=0;j<i;j++) CHECK(!(st[i].component[0]==st[j].component[0]&&st[i].component[1]==st[j].component[1]&&st[i].lead_vert[0]==st[j].lead_vert[0]&&st[i].lead_vert[1]==st[j].lead_vert[1]),"each strut once"); }
  /* every pair of edges of different components nearest in their interiors */
  if(m<2) for(i=0;i<ned(&r.p[0]);i++) for(j=0;j<ned(&r.p[1]);j++){ double s,t,d2; const rcomp *p=&r.p[0],*q=&r.p[1]; if(!inter(p->v[i],p->v[(i+1)%p->nv],q->v[j],q->v[(j+1)%q->nv],&s,&t,&d2)) continue; if(s<1e-9||s>1-1e-9||t<1e-9||t>1-1e-9||d2>(lim-1e-6)*(lim-1e-6)) continue; int f=0,z; for(z=0;z<n;z++){ int w=st[z].component[0]==0?0:1; if(st[z].component[w]==0&&st[z].component[1-w]==1&&st[z].lead_vert[w]==i&&st[z].lead_vert[1-w]==j) f=1; } CHECK(f,"every strut below the bound is listed"); }
  free(st); plc_free(L); sym_reach("end"); }
void p33_self(void){ int k=sym_arg("k",0); rcurve r; memset(&r,0,sizeof r); r.nc=1; static const int S[4]={3,5,7,3}; put(&r,0,&SH[S[k]],0,0,0); double t=bnd("t",-0.5,0.5); if(k==0) r.p[0].v[2][2]+=t; if(k==1) r.p[0].v[3][0]+=t; if(k==2) r.p[0].v[4][1]+=t; if(k==3){ r.p[0].v[1][0]+=t; } plCurve *L=rc_make(&r); octrope_strut *st=malloc(12*sizeof *st); double sh=0; int i,n=octrope_struts(L,0,0.5,st,12,&sh,0,0); for(i=0;i<n;i++) strut_ok(L,&r,&st[i]); double s2=shortest_self2(&r.p[0]); if(s2>=0) NEAR(sh*sh,s2,1e-6,"shortest strut"); else CHECK(n==0&&sh>1e300,"no struts"); free(st); plc_free(L); sym_reach("end"); }
/* minimum radius */
static double mr1(const rcomp *p,int j,int plus){ double a[3],b[3],c[3]; const double *v=p->v[j],*u=p->v[(j+p->nv-1)%p->nv],*w=p->v[(j+1)%p->nv]; sub3(a,v,u); sub3(b,w,v); c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; double A=dot3(a,a),B=dot3(b,b); return (sqrt(A*B)+dot3(a,b))*sqrt(plus?B:A)/(2*sqrt(dot3(c,c))); }
static void mkmr(rcurve *r,int k,int q){ memset(r,0,sizeof *r); r->nc=1; static const int S[4]={2,3,4,5}; put(r,0,&SH[S[k]],0,0,0); r->p[0].v[1][q]+=bnd("t",-0.5,0.5); }
void p33_mr(void){ rcurve r; mkmr(&r,sym_arg("k",0),sym_arg("q",0)); plCurve *L=rc_make(&r); rcomp *p=&r.p[0]; int j; double x=octrope_minradval(L),m=-1; for(j=p->open?1:0;j<(p->open?p->nv-1:p->nv);j++){ double y=mr1(p,j,0); if(m<0||y<m) m=y; y=mr1(p,j,1); if(y<m) m=y; } NEAR(x,m,1e-6,"minimum radius"); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
/* lists of minimum radius locations: concrete polygon, arbitrary cutoff or margin */
void p33_mrl(void){ int k=sym_arg("k",0),m=sym_arg("m",0),j,b,n=-1,i; rcurve r; memset(&r,0,sizeof r); r.nc=2; static const int S[4]={2,3,7,5},T[4]={4,2,3,7}; put(&r,0,&SH[S[k]],0,0,0); put(&r,1,&SH[T[k]],0,0,0); plCurve *L=rc_make(&r); int cap=m==0||m==1?20:m==2?3:1; double cut=0,eps=0; if(m==0) cut=bnd("cut",0.01,6); else if(m==1||m==2) eps=bnd("eps",0,6); else cut=bnd("cut",0.01,6); octrope_mrloc *ml=malloc(cap*sizeof *ml); double x=octrope_minrad(L,cut,eps,ml,cap,&n),mn=-1; int c; for(c=0;c<2;c++){ rcomp *p=&r.p[c]; for(j=p->open?1:0;j<(p->open?p->nv-1:p->nv);j++) for(b=0;b<2;b++){ double y=mr1(p,j,b); if(mn<0||y<mn) mn=y; } } NEAR(x,mn,1e-9,"minimum radius"); CHECK(n>=0&&n<=cap,"number of locations within the capacity"); double lim=cut>0?cut:x+eps; int tot=0; for(c=0;c<2;c++){ rcomp *p=&r.p[c]; for(j=p->open?1:0;j<(p->open?p->nv-1:p->nv);j++) for(b=0;b<2;b++){ double y=mr1(p,j,b); int f=0; for(i=0;i<n;i++) if(ml[i].component==c&&ml[i].vert==j&&ml[i].svert==(b?j+1:j-1)){ f++; NEAR(ml[i].mr,y,1e-9,"radius of a location"); } CHECK(f<=1,"each location once"); tot+=f; if(f) CHECK(y<=lim+1e-9,"listed locations are small enough"); if(!f&&cap>=20) CHECK(y>=lim-1e-9,"every location below the bound is listed"); } } CHECK(tot==n,"locations exist"); free(ml); plc_free(L); sym_reach("end"); }
/* everything together */
void p33_all(void){ int k=sym_arg("k",0),l=sym_arg("l",0),c,j,b,ns=-1,nm=-1; rcurve r; mk2(&r,k+2,sym_arg("d",0)); plCurve *L=rc_make(&r); double lam=l==0?0:l==1?bnd("lambda",0.25,8):1,rl=0,th=0,cl=0,mr=0,ms=0,mn=-1,len=0; char *mem=l==2?malloc(20000):0; octrope_strut st[12]; octrope_mrloc ml[20]; octrope(L,&rl,&th,&cl,&mr,&ms,0,0,ml,20,&nm,0,0.01,st,12,&ns,mem,mem?20000:0,lam); for(c=0;c<2;c++){ rcomp *p=&r.p[c]; for(j=p->open?1:0;j<(p->open?p->nv-1:p->nv);j++) for(b=0;b<2;b++){ double y=mr1(p,j,b); if(mn<0||y<mn) mn=y; } for(j=0;j<ned(p);j++){ double d[3]; sub3(d,p->v[(j+1)%p->nv],p->v[j]); len+=sqrt(dot3(d,d)); } } double s2=ref_short2(&r); NEAR(cl,len,1e-6,"length"); NEAR(ms*ms,s2,1e-6,"shortest strut"); CHECK(ns>=1&&nm>=0,"counts"); if(lam==0){ NEAR(th*th*4,s2,1e-6,"thickness without stiffness"); CHECK(mr>1e300&&nm==0,"no radius without stiffness"); } else { NEAR(mr,mn,1e-6,"minimum radius"); double u=ms/2<mn/lam?ms/2:mn/lam; NEAR(th,u,1e-6,"thickness"); } if(th>0.01) NEAR(rl*th,len,1e-5,"ropelength"); free(mem); double t2=octrope_thickness(L,0,0,lam); NEAR(t2,th,1e-9,"thickness alone"); NEAR(octrope_curvelength(L),len,1e-6,"length alone"); plc_free(L); sym_reach("end"); }
void p33_bad(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; put(&r,0,&SH[2],0,0,0); plCurve *L=rc_make(&r); octrope_strut st[2]; double e=bnd("e",-5,-1e-6); CHECK(octrope_struts(0,0,0,st,2,0,0,0)==-1&&octrope_error_num,"missing curve"); CHECK(octrope_struts(L,0,e,st,2,0,0,0)==-1&&octrope_error_num,"negative margin"); CHECK(octrope_struts(L,e,0,st,2,0,0,0)==-1&&octrope_error_num,"negative cutoff"); CHECK(octrope_struts(L,0,0,0,2,0,0,0)==-1&&octrope_error_num,"missing list"); double x=7; octrope(L,&x,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,e); CHECK(x==7&&octrope_error_num,"negative stiffness"); CHECK(octrope_curvelength(0)==-1&&octrope_error_num,"missing curve"); plc_free(L); sym_reach("end"); }
