/* P27: measurements of curves */
//BOUND curves of one or two components of 2..4 vertices (open and closed) with arbitrary real coordinates in [-50,50]; angle-valued measurements with all but one vertex arbitrary on a fixed grid of shapes; exact reals (rounding outside the bound), tolerance 1e-6
//STUB gsl_combination_* : lexicographic 4-subsets (reference implementation in the harness)
//JOB p27_count o1=0..1 n1=2..4 o2=0..1
//JOB p27_index o1=0..1 n1=3..4 o2=0..1
//JOB p27_len o1=0..1 n1=2..4 o2=0..1
//JOB p27_s o1=0..1 n1=3 o2=0..1
//JOB p27_subarc o1=0..1 n1=3..4
//JOB p27_stats o1=0..1 n1=2..4
//JOB p27_stats z=1 n1=3..4
//JOB p27_com o1=0..1 n1=3
//JOB p27_gyr n1=3..4
//JOB p27_diam n1=2..3 o1=0..1
//JOB p27_chord o1=0..1 n1=3..4 k=1..9
//JOB p27_turn o1=0..1 v=-2..6
//JOB p27_turndeg
//JOB p27_mr o1=0..1 v=0..3 d=0..3
//JOB p27_tc o1=0..1 n1=2..5
//JOB p27_tt o1=0..1 n1=3..4 d=0..3
//JOB p27_tan o1=0..1 v=0..3
//JOB p27_tandeg o1=0..1
//JOB p27_dih n1=2..5 cap=0..5,9..12
#include "curve.h"
#include <gsl/gsl_combination.h>
/* reference stand-in for the GSL combinations */
gsl_combination *gsl_combination_calloc(const size_t n,const size_t k){ gsl_combination *c=malloc(sizeof(*c)); size_t i; CHECK(n>=k,"combinations of a large enough set"); c->n=n; c->k=k; c->data=malloc(k*sizeof(size_t)); for(i=0;i<k;i++) c->data[i]=i; return c; }
int gsl_combination_next(gsl_combination *c){ size_t k=c->k,n=c->n,i=k; while(i>0&&c->data[i-1]==n-k+i-1) i--; if(i==0) return -1; c->data[i-1]++; for(;i<k;i++) c->data[i]=c->data[i-1]+1; return 0; }
size_t gsl_combination_get(const gsl_combination *c,const size_t i){ CHECK(i<c->k,"index of a combination"); return c->data[i]; }
void gsl_combination_free(gsl_combination *c){ if(c){ free(c->data); free(c); } }
static double dist(const double *a,const double *b){ double x=a[0]-b[0],y=a[1]-b[1],z=a[2]-b[2]; return sqrt(x*x+y*y+z*z); }
static double sqd(const double *a,const double *b){ double x=a[0]-b[0],y=a[1]-b[1],z=a[2]-b[2]; return x*x+y*y+z*z; }
static void bnd(rcomp *p){ int i,j; for(i=0;i<p->nv;i++) for(j=0;j<3;j++) sym_assume(p->v[i][j]<=50&&p->v[i][j]>=-50); }
static int isopen(const rcomp *p){ return p->open||p->nv<3; }
static int ne(const rcomp *p){ return isopen(p)?p->nv-1:p->nv; }
static double elen(const rcomp *p,int i){ return dist(p->v[(i+1)%p->nv],p->v[i]); }
static plCurve *mk(rcurve *r,int two,int n2){ memset(r,0,sizeof(*r)); r->nc=1+two; rc_sym(&r->p[0],sym_arg("n1",3),sym_arg("o1",0),0); bnd(&r->p[0]); if(two){ rc_sym(&r->p[1],n2,sym_arg("o2",0),0); bnd(&r->p[1]); } return rc_make(r); }
/* vertices on a line with arbitrary parameters (norm of the direction: 3) */
static void online(rcomp *p,int nv,int open){ int i,k; memset(p,0,sizeof(*p)); p->nv=nv; p->open=open; for(i=0;i<nv;i++){ double t=sym_real("t"); sym_assume(t<=50&&t>=-50); p->v[i][0]=t; p->v[i][1]=2*t+1; p->v[i][2]=5-2*t; } }
/* each edge along its own direction, with arbitrary (signed) length */
static void zigzag(rcomp *p,int nv){ static const double d[4][3]={{1,2,2},{0,3,4},{2,-1,2},{-6,2,3}}; int i,k; memset(p,0,sizeof(*p)); p->nv=nv; p->open=1; for(i=0;i<nv;i++){ double t=sym_real("t"); sym_assume(t<=50&&t>=-50); for(k=0;k<3;k++) p->v[i][k]=i?p->v[i-1][k]+t*d[i][k]:t*(k+1); } }
static plCurve *mkl(rcurve *r,int z){ memset(r,0,sizeof(*r)); r->nc=1; if(z) zigzag(&r->p[0],sym_arg("n1",3)); else online(&r->p[0],sym_arg("n1",3),sym_arg("o1",0)); return rc_make(r); }
void p27_count(void){ rcurve r; plCurve *L=mk(&r,1,3); int ce[2]={-1,-1}; int t=ne(&r.p[0])+ne(&r.p[1]); CHECK(plc_num_verts(L)==r.p[0].nv+3,"number of vertices"); CHECK(plc_num_edges(L)==t,"number of edges"); CHECK(plc_edges(L,ce)==t&&ce[0]==ne(&r.p[0])&&ce[1]==ne(&r.p[1]),"edges of each component"); CHECK(plc_edges(L,NULL)==t,"number of edges"); plc_free(L); sym_reach("end"); }
void p27_index(void){ rcurve r; plCurve *L=mk(&r,1,4); int c=sym_choice("cp",0,1),v=sym_choice("vt",-9,9),nv=r.p[c].nv,w; w=isopen(&r.p[c])?(v<0?0:v>=nv?nv-1:v):((v%nv)+nv)%nv; int k=plc_vertex_num(L,c,v); CHECK(k==w+(c?r.p[0].nv:0),"vertex number with wrap-around"); CHECK(plc_cp_num(L,k)==c,"component of a vertex number"); CHECK(plc_vt_num(L,k)==w,"vertex of a vertex number"); plc_free(L); sym_reach("end"); }
void p27_len(void){ rcurve r; plCurve *L=mk(&r,1,3); double cl[2]={-1,-1},x[2]={0,0},t; int i,j; for(i=0;i<2;i++) for(j=0;j<ne(&r.p[i]);j++) x[i]+=elen(&r.p[i],j); t=plc_arclength(L,cl); NEAR(cl[0],x[0],1e-6,"length of the first component"); NEAR(cl[1],x[1],1e-6,"length of the second component"); NEAR(t,cl[0]+cl[1],1e-6,"total length"); NEAR(plc_arclength(L,NULL),t,1e-6,"total length"); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
void p27_s(void){ rcurve r; plCurve *L=mk(&r,1,3); int c,v,j; double base=0; for(c=0;c<2;c++){ double s=base; for(v=0;v<r.p[c].nv;v++){ NEAR(plc_s(L,c,v),s,1e-6,"arclength position"); if(v<r.p[c].nv-1) s+=elen(&r.p[c],v); } for(j=0;j<ne(&r.p[c]);j++) base+=elen(&r.p[c],j); } plc_free(L); sym_reach("end"); }
void p27_subarc(void){ rcurve r; plCurve *L=mk(&r,0,0); int a=sym_choice("a",0,r.p[0].nv-1),b=sym_choice("b",0,r.p[0].nv-1),lo=a<b?a:b,hi=a<b?b:a,j; double in=0,out=0; for(j=0;j<ne(&r.p[0]);j++) if(j>=lo&&j<hi) in+=elen(&r.p[0],j); else out+=elen(&r.p[0],j); double d=plc_subarc_length(L,0,a,b); if(isopen(&r.p[0])) NEAR(d,in,1e-6,"distance along an open curve"); else NEAR(d,in<=out?in:out,1e-6,"shorter distance along a closed curve"); plc_free(L); sym_reach("end"); }
void p27_stats(void){ rcurve r; plCurve *L=mkl(&r,sym_arg("z",0)); double lo,sh,me,m2; int j,n=ne(&r.p[0]); plc_edgelength_stats(L,&lo,&sh,&me,&m2); double s=0,q=0; for(j=0;j<n;j++){ double e=elen(&r.p[0],j); s+=e; q+=sqd(r.p[0].v[(j+1)%r.p[0].nv],r.p[0].v[j]); } NEAR(me*n,s,1e-6,"mean edge length"); NEAR(m2*n,q,1e-6,"second moment of the edge lengths"); double ml=elen(&r.p[0],0),ms=ml; for(j=1;j<n;j++){ double e=elen(&r.p[0],j); ml=e>ml?e:ml; ms=e<ms?e:ms; } NEAR(lo,ml,1e-6,"longest edge"); NEAR(sh,ms,1e-6,"shortest edge"); plc_edgelength_stats(L,NULL,NULL,NULL,NULL); plc_free(L); sym_reach("end"); }
void p27_com(void){ rcurve r; plCurve *L=mk(&r,1,2); plc_vector c=plc_center_of_mass(L); int i,j,k; for(k=0;k<3;k++){ double s=0; for(i=0;i<2;i++) for(j=0;j<r.p[i].nv;j++) s+=r.p[i].v[j][k]; NEAR(c.c[k]*(r.p[0].nv+2),s,1e-6,"centre of mass"); } plc_free(L); sym_reach("end"); }
void p27_gyr(void){ rcurve r; plCurve *L=mk(&r,1,2); int n=0,i,j; double *v[8],s=0; for(i=0;i<2;i++) for(j=0;j<r.p[i].nv;j++) v[n++]=r.p[i].v[j]; for(i=0;i<n;i++) for(j=0;j<n;j++) s+=sqd(v[i],v[j]); NEAR(plc_gyradius(L)*2*n*n,s,1e-4,"half the average squared distance between vertices"); plc_free(L); sym_reach("end"); }
void p27_diam(void){ rcurve r; memset(&r,0,sizeof r); r.nc=2; { online(&r.p[0],sym_arg("n1",3),sym_arg("o1",0)); online(&r.p[1],2,1); } plCurve *L=rc_make(&r); int n=0,i,j; double *v[8],m=0; for(i=0;i<2;i++) for(j=0;j<r.p[i].nv;j++) v[n++]=r.p[i].v[j]; double d=plc_pointset_diameter(L),dd=d*d; int hit=0; CHECK(d>=0,"diameter"); for(i=0;i<n;i++) for(j=0;j<i;j++){ double s=dist(v[i],v[j]); m=s>m?s:m; } NEAR(d,m,1e-6,"largest distance between vertices"); plc_free(L); sym_reach("end"); }
void p27_chord(void){ rcurve r; plCurve *L=mk(&r,1,3); int n=r.p[0].nv,k=sym_arg("k",1),sk[2]={k,1},op=isopen(&r.p[0]),q,j; if(op&&k>=n){ sym_reach("end"); return; } double *m=plc_mean_squared_chordlengths(L,0,sk,2); for(q=0;q<2;q++){ int cnt=op?n-sk[q]:n; double s=0; for(j=0;j<cnt;j++) s+=sqd(r.p[0].v[(j+sk[q])%n],r.p[0].v[j]); NEAR(m[q]*cnt,s,1e-6,"mean squared chord length"); } free(m); plc_free(L); sym_reach("end"); }
static void flat(rcomp *p,int nv,int open){ static const double q[5][2]={{0,0},{4,1},{5,5},{1,6},{-2,3}}; int i; memset(p,0,sizeof(*p)); p->nv=nv; p->open=open; for(i=0;i<nv;i++){ p->v[i][0]=q[i][0]; p->v[i][1]=q[i][1]; p->v[i][2]=sym_real("z"); sym_assume(p->v[i][2]<=50&&p->v[i][2]>=-50); } }
/* turning: previous, current and next vertex; two of the three are fixed, the third arbitrary */
static const double DD[5][3]={{1,0,0},{0,-2,0},{1,2,2},{-1,1,0},{0,3,4}};
static void shape(rcomp *p,int nv,int open,int d,int free){ int i,k; memset(p,0,sizeof(*p)); p->nv=nv; p->open=open; for(i=0;i<nv;i++) for(k=0;k<3;k++) p->v[i][k]=(i*i*(k+1)+i*(2-k))%5+DD[d][k]*i; if(free>=0) for(k=0;k<3;k++){ p->v[free][k]=sym_real("x"); sym_assume(p->v[free][k]<=50&&p->v[free][k]>=-50); } }
static double dt(const double *a,const double *b,const double *c,const double *d){ return (b[0]-a[0])*(d[0]-c[0])+(b[1]-a[1])*(d[1]-c[1])+(b[2]-a[2])*(d[2]-c[2]); }
void p27_turn(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; int v=sym_arg("v",0),open=sym_arg("o1",0),nv=4,w=((v%nv)+nv)%nv; if(open) w=v<0?0:v>=nv?nv-1:v; flat(&r.p[0],nv,open); plCurve *L=rc_make(&r); bool ok=0; int end=open&&(v<=0||v>=nv-1); double a; if(end){ a=plc_turning_angle(L,0,v,&ok); CHECK(a==0,"no turning at the ends of an open curve"); CHECK(ok,"turning angle at an end is defined"); plc_free(L); sym_reach("end"); return; }
  double *p=r.p[0].v[(w+nv-1)%nv],*c=r.p[0].v[w],*n=r.p[0].v[(w+1)%nv]; a=plc_turning_angle(L,0,v,&ok); CHECK(ok,"turning angle is defined"); CHECK(a>=0&&a<=3.1415926536,"turning angle in [0,pi]"); double e12=sqrt(sqd(p,c)*sqd(n,c)); NEAR(cos(a)*e12,dt(p,c,c,n),1e-4,"cosine of the turning angle"); plc_free(L); sym_reach("end"); }
void p27_turndeg(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; shape(&r.p[0],4,0,0,-1); int k; for(k=0;k<3;k++){ r.p[0].v[1][k]=sym_real("x"); r.p[0].v[2][k]=r.p[0].v[1][k]; } plCurve *L=rc_make(&r); bool ok=1; double a=plc_turning_angle(L,0,1,&ok); CHECK(!ok,"no turning angle at a repeated vertex"); CHECK(a==0,"zero at a repeated vertex"); plc_turning_angle(L,0,1,NULL); plc_free(L); sym_reach("end"); }
/* curvature 2 tan(theta/2)/(shorter edge) */
void p27_mr(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; int v=sym_arg("v",0),open=sym_arg("o1",0),nv=4; shape(&r.p[0],nv,open,sym_arg("d",0),-1); double t=sym_real("t"); sym_assume(t>=0.1&&t<=10); int k; double *p=r.p[0].v[(v+3)%4],*c=r.p[0].v[v],*n=r.p[0].v[(v+1)%4]; for(k=0;k<3;k++) n[k]=c[k]+t*(k==0?1:k==1?2:-2); plCurve *L=rc_make(&r); double q=plc_MR_curvature(L,0,v); if(open&&(v==0||v==nv-1)){ CHECK(q==0,"no curvature at the ends of an open curve"); plc_free(L); sym_reach("end"); return; } double a=dist(p,c),b=3*t,m=a<b?a:b,dot=dt(p,c,c,n),cr=sqrt(a*a*b*b-dot*dot); NEAR(q*m*(a*b+dot),2*cr,1e-4,"curvature from the circle inscribed at the vertex"); plc_free(L); sym_reach("end"); }
/* totals: sums of the angles at the vertices, each angle characterised separately (p27_turn) */
void p27_tc(void){ rcurve r; memset(&r,0,sizeof r); r.nc=2; int n1=sym_arg("n1",3),j,c; flat(&r.p[0],n1,sym_arg("o1",0)); flat(&r.p[1],4,1-sym_arg("o1",0)); plCurve *L=rc_make(&r); double ct[2]={-1,-1}; double t=plc_totalcurvature(L,ct); for(c=0;c<2;c++){ double s=0; for(j=0;j<r.p[c].nv;j++){ bool ok; s+=plc_turning_angle(L,c,j,&ok); } NEAR(ct[c],s,1e-6,"total curvature is the sum of the turning angles"); } NEAR(t,ct[0]+ct[1],1e-6,"total over the components"); NEAR(plc_totalcurvature(L,NULL),t,1e-6,"total"); plc_free(L); sym_reach("end"); }
static double tor(const double *a,const double *b,const double *c,const double *d){ double u[3],v[3],w[3],n[3],m[3]; int k; for(k=0;k<3;k++){ u[k]=b[k]-a[k]; v[k]=c[k]-b[k]; w[k]=d[k]-c[k]; } for(k=0;k<3;k++){ n[k]=u[(k+1)%3]*v[(k+2)%3]-u[(k+2)%3]*v[(k+1)%3]; m[k]=v[(k+1)%3]*w[(k+2)%3]-v[(k+2)%3]*w[(k+1)%3]; } bool ok; double x=plc_angle(V3(n[0],n[1],n[2]),V3(m[0],m[1],m[2]),&ok); return ok?x:0; }
void p27_tt(void){ rcurve r; memset(&r,0,sizeof r); r.nc=2; int n1=sym_arg("n1",3),j,c; shape(&r.p[0],n1,sym_arg("o1",0),sym_arg("d",0),-1); shape(&r.p[1],5,1-sym_arg("o1",0),sym_arg("d",0),-1); double x=sym_real("x"); sym_assume(x>=11&&x<=50); r.p[0].v[1][2]=x; plCurve *L=rc_make(&r); double ct[2]={-1,-1},t=plc_totaltorsion(L,ct); for(c=0;c<2;c++){ rcomp *p=&r.p[c]; int n=p->nv,e; double s=0; for(e=0;e<n;e++){ if(isopen(p)&&e>n-4) continue; s+=tor(p->v[e],p->v[(e+1)%n],p->v[(e+2)%n],p->v[(e+3)%n]); } NEAR(ct[c],s,1e-6,"total torsion is the sum over the edges"); } NEAR(t,ct[0]+ct[1],1e-6,"total over the components"); NEAR(plc_totaltorsion(L,NULL),t,1e-6,"total"); plc_free(L); sym_reach("end"); }
void p27_tan(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; int v=sym_arg("v",0),open=sym_arg("o1",0),nv=4; rc_sym(&r.p[0],nv,open,0); bnd(&r.p[0]); double *a=r.p[0].v[(v+3)%4],*b=r.p[0].v[(v+1)%4]; if(open&&v==0) a=r.p[0].v[0]; if(open&&v==3) b=r.p[0].v[3]; sym_assume(sqd(a,b)>=0.01); plCurve *L=rc_make(&r); bool ok=0; plc_vector t=plc_mean_tangent(L,0,v,&ok); CHECK(ok,"tangent is defined"); double d=dist(b,a); int k; for(k=0;k<3;k++) NEAR(t.c[k]*d,b[k]-a[k],1e-6,"unit tangent along the average of the two edges"); plc_free(L); sym_reach("end"); }
void p27_tandeg(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; shape(&r.p[0],4,sym_arg("o1",0),0,2); int k; for(k=0;k<3;k++) r.p[0].v[0][k]=r.p[0].v[2][k]; plCurve *L=rc_make(&r); bool ok=1; plc_mean_tangent(L,0,1,&ok); CHECK(!ok,"no tangent where the curve doubles back"); plc_free(L); sym_reach("end"); }
/* dihedral angles of 4-tuples: count, cap and range; the values are the angles of the two diagonals */
static double nang(const double *a,const double *b,const double *d,const double *p,const double *q,const double *s,int *good){ bool k1,k2,k3; plc_vector m=plc_normal(V3(a[0],a[1],a[2]),V3(b[0],b[1],b[2]),V3(d[0],d[1],d[2]),&k1),n=plc_normal(V3(p[0],p[1],p[2]),V3(q[0],q[1],q[2]),V3(s[0],s[1],s[2]),&k2); double x=plc_angle(m,n,&k3); *good=k1&&k2&&k3; return x; }
void p27_dih(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; int n=sym_arg("n1",4),k; unsigned cap=sym_arg("cap",0),m=cap,i,want,full=n==4?2:n==5?10:0; shape(&r.p[0],n,n<3,2,-1); plCurve *L=rc_make(&r); float *a=plc_dihedral_angles(L,&m); want=cap==0||cap>full?full:cap; CHECK(m==want,"number of dihedral angles"); CHECK(a!=NULL,"buffer"); 
  int q[5][4]={{0,1,2,3},{0,1,2,4},{0,1,3,4},{0,2,3,4},{1,2,3,4}}; for(i=0;i<want;i++){ int *z=q[i/2],g; double (*v)[3]=r.p[0].v; double x=i%2==0?nang(v[z[0]],v[z[1]],v[z[3]],v[z[1]],v[z[2]],v[z[3]],&g):nang(v[z[0]],v[z[1]],v[z[2]],v[z[2]],v[z[3]],v[z[0]],&g); NEAR(a[i],g?x:-1,1e-4,"dihedral angles in lexicographic order"); } free(a); plc_free(L); sym_reach("end"); }
