/* P29: nearest neighbour and nearest vertex queries */
//BOUND all points and buffers of up to 4 arbitrary points, curves of 1..3 components of 1..3 arbitrary vertices; large buffers (5000 and 5003 points, stored in scrambled order, spread along each coordinate direction, with ties and repeated points): query arbitrary along the main direction; every way of passing precomputed data
//JOB p29_nn n=1..3 m=0..2
//JOB p29_nn n=4 m=0 d=1
//JOB p29_stale n=2
//JOB p29_nv s=0..3 m=0..2
//JOB p29_nv s=0 m=3
//JOB p29_big n=5000 d=0..2 w=0..3 y=0..1 m=0 forksel=1
//JOB p29_big n=5000 d=0..2 w=2,4 y=0,2 m=0 forksel=1
//JOB p29_big n=5000 d=0 w=0..1 y=0 m=1..2 forksel=1
//JOB p29_big n=5003 d=0 w=0,1,3 y=0 m=0 b=1 forksel=1
//JOB p29_bigm s=0..1 forksel=1
#include "curve.h"
static double sq(const plc_vector a,const plc_vector b){ double x=a.c[0]-b.c[0],y=a.c[1]-b.c[1],z=a.c[2]-b.c[2]; return x*x+y*y+z*z; }
static plc_vector sv(int d){ plc_vector v; int k; for(k=0;k<3;k++){ v.c[k]=k<d?sym_real("p"):0; if(k<d) sym_assume(v.c[k]<=100&&v.c[k]>=-100); } return v; }
static void is_nn(plc_vector q,int n,const plc_vector *b,int r){ int i; CHECK(r>=0&&r<n,"index of a point"); r=sym_concretize(r); for(i=0;i<n;i++) CHECK(sq(q,b[r])<=sq(q,b[i]),"no point is nearer"); }
void p29_nn(void){ int n=sym_arg("n",2),m=sym_arg("m",0),i,d=sym_arg("d",3),e=0; plc_vector *b=malloc(n*sizeof *b); for(i=0;i<n;i++) b[i]=sv(d); plc_vector q=sv(d); struct plc_nearest_neighbor_pc_data *pc=0; int r=plc_nearest_neighbor(q,n,b,m?&pc:0,m==2?0:&e); CHECK(e==0,"no error"); is_nn(q,n,b,r); if(m){ plc_vector q2=q; r=plc_nearest_neighbor(q2,n,b,&pc,0); is_nn(q2,n,b,r); plc_nearest_neighbor_pc_data_free(&pc); CHECK(pc==0,"freed data is cleared"); plc_nearest_neighbor_pc_data_free(&pc); } free(b); sym_reach("end"); }
void p29_stale(void){ int n=2,i,e=0; plc_vector *b=malloc(n*sizeof *b),*c=malloc(3*sizeof *c); for(i=0;i<n;i++) b[i]=sv(2); for(i=0;i<3;i++) c[i]=sv(2); plc_vector q=sv(2); struct plc_nearest_neighbor_pc_data *pc=0; int r=plc_nearest_neighbor(q,n,b,&pc,&e); is_nn(q,n,b,r); CHECK(e==0,"no error"); r=plc_nearest_neighbor(q,3,c,&pc,&e); CHECK(e==PLC_E_STALE_PCDATA,"data of another buffer is reported"); is_nn(q,3,c,r); e=0; r=plc_nearest_neighbor(q,3,c,&pc,&e); CHECK(e==0,"data now belongs to this buffer"); is_nn(q,3,c,r); plc_nearest_neighbor_pc_data_free(&pc); free(b); free(c); sym_reach("end"); }
static void is_nv(plc_vector q,plCurve *L,plc_vector got,int c,int v){ int i,j,k; CHECK(c>=0&&c<L->nc,"an existing component"); c=sym_concretize(c); CHECK(v>=0&&v<L->cp[c].nv,"an existing vertex"); v=sym_concretize(v); for(k=0;k<3;k++) CHECK(got.c[k]==L->cp[c].vt[v].c[k],"the vertex itself is returned"); for(i=0;i<L->nc;i++) for(j=0;j<L->cp[i].nv;j++) CHECK(sq(q,got)<=sq(q,L->cp[i].vt[j]),"no vertex is nearer"); }
void p29_nv(void){ static const int S[4][4]={{1,3,0,0},{2,1,2,0},{2,2,2,0},{3,1,1,2}}; int s=sym_arg("s",0),m=sym_arg("m",0),i,j,k,c,v,e=0; rcurve r; memset(&r,0,sizeof r); r.nc=S[s][0]; for(i=0;i<r.nc;i++){ r.p[i].nv=S[s][i+1]; r.p[i].open=1; for(j=0;j<r.p[i].nv;j++) for(k=0;k<2;k++){ r.p[i].v[j][k]=sym_real("x"); sym_assume(r.p[i].v[j][k]<=100&&r.p[i].v[j][k]>=-100); } } plCurve *L=rc_make(&r); plc_vector q=sv(2),g; struct plc_nearest_vertex_pc_data *pc=0; g=plc_nearest_vertex(q,L,&c,&v,m?&pc:0,m==2?0:&e); CHECK(e==0,"no error"); is_nv(q,L,g,c,v); if(m){ plc_vector q2=q; g=plc_nearest_vertex(q2,L,&c,&v,&pc,&e); CHECK(e==0,"no error"); is_nv(q2,L,g,c,v); }
  if(m==3){ int nv[2]={2,1},cc[2]={0,0}; bool op[2]={1,1}; plCurve *M=plc_new(2,nv,op,cc); M->cp[0].vt[0]=V3(5,5,0); M->cp[0].vt[1]=V3(-5,5,0); M->cp[1].vt[0]=V3(0,-5,0); g=plc_nearest_vertex(q,M,&c,&v,&pc,&e); CHECK(e==PLC_E_STALE_PCDATA,"data of another curve is reported"); is_nv(q,M,g,c,v); plc_nearest_vertex_pc_data_free(&pc); plc_free(M); } else plc_nearest_vertex_pc_data_free(&pc); CHECK(pc==0,"freed data is cleared"); plc_nearest_vertex_pc_data_free(&pc); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
/* large buffers */
static plc_vector pt(int i,int d,int b){ plc_vector v; v.c[d]=b?(i/3)*2:i; v.c[(d+1)%3]=(i*7)%5; v.c[(d+2)%3]=(i*3)%4; return v; }
static const double W[5]={-30,2499,4998.5,1200,0.1};
static void big(plc_vector *b,int n,int d,int bb){ int i; for(i=0;i<n;i++) b[(int)((i*1237L)%n)]=pt(i,d,bb); }
static void is_big(plc_vector q,const plc_vector *b,int n,int d,double w,int r){ int i; CHECK(r>=0&&r<n,"index of a point"); r=sym_concretize(r); for(i=0;i<n;i++) if(fabs(b[i].c[d]-w)<12||(w<0&&b[i].c[d]<20)) CHECK(sq(q,b[r])<=sq(q,b[i]),"no point is nearer"); CHECK(fabs(b[r].c[d]-w)<12||(w<0&&b[r].c[d]<20),"no far point"); }
void p29_big(void){ int n=sym_arg("n",5000),d=sym_arg("d",0),m=sym_arg("m",0),bb=sym_arg("b",0),e=0; double w=W[sym_arg("w",0)]; plc_vector *b=malloc(n*sizeof *b); big(b,n,d,bb); plc_vector q; q.c[d]=sym_real("q"); sym_assume(q.c[d]>=w&&q.c[d]<=w+2); q.c[(d+1)%3]=sym_arg("y",0)==2?3:sym_arg("y",0)?7.5:1.25; q.c[(d+2)%3]=sym_arg("y",0)==2?1:0.5; struct plc_nearest_neighbor_pc_data *pc=0; int r; if(m==2){ plc_vector *c=malloc(n*sizeof *c); big(c,n,(d+1)%3,0); r=plc_nearest_neighbor(V3(17,17,17),n,c,&pc,&e); r=plc_nearest_neighbor(q,n,b,&pc,&e); CHECK(e==PLC_E_STALE_PCDATA,"data of another buffer is reported"); free(c); } else r=plc_nearest_neighbor(q,n,b,m?&pc:0,&e); is_big(q,b,n,d,w,r); if(m==1){ e=0; r=plc_nearest_neighbor(q,n,b,&pc,&e); CHECK(e==0,"data belongs to this buffer"); is_big(q,b,n,d,w,r); } plc_nearest_neighbor_pc_data_free(&pc); free(b); sym_reach("end"); }
/* curve with a large component */
void p29_bigm(void){ int nv[2]={5000,3},cc[2]={0,0},i,c,v,e=0,s=sym_arg("s",0); bool op[2]={1,1}; if(s){ nv[0]=3; nv[1]=5000; } plCurve *L=plc_new(2,nv,op,cc); for(i=0;i<5000;i++) L->cp[s].vt[(int)((i*1237L)%5000)]=pt(i,1,0); for(i=0;i<3;i++) L->cp[1-s].vt[i]=V3(2,2501+i,-1); plc_fix_wrap(L); plc_vector q=V3(2.25,0,-1.25); q.c[1]=sym_real("q"); sym_assume(q.c[1]>=2499&&q.c[1]<=2501); plc_vector g=plc_nearest_vertex(q,L,&c,&v,0,&e); CHECK(c==0||c==1,"an existing component"); c=sym_concretize(c); v=sym_concretize(v); for(i=0;i<3;i++) CHECK(g.c[i]==L->cp[c].vt[v].c[i],"the vertex itself"); for(i=0;i<3;i++) CHECK(sq(q,g)<=sq(q,L->cp[1-s].vt[i]),"no vertex is nearer"); for(i=0;i<5000;i++) if(fabs(L->cp[s].vt[i].c[1]-2500)<8) CHECK(sq(q,g)<=sq(q,L->cp[s].vt[i]),"no vertex is nearer"); plc_free(L); sym_reach("end"); }
