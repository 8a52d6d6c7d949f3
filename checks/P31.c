/* P31: symmetries and symmetry groups of curves */
//BOUND curves of 1..2 components and 4..8 vertices within 0.3 (in every coordinate, arbitrarily) of a symmetric one: rotation groups of order 1..4 and 6 about three axes (not only unit vectors), reflection in three planes, the coordinate reflections; arbitrary variations; curves without the symmetry; exact reals (rounding of the trigonometric constants included), tolerance 1e-6
//JOB p31_group g=0..10 pt=0..2 forksel=1
//JOB p31_group g=0,5,8..10 pt=3..6 forksel=1
//JOB p31_group g=1,2 pt=3..5 forksel=1
//JOB p31_group g=1,2 pt=6 tier=thorough forksel=1
//JOB p31_group g=3,4,6 pt=3..6 tier=thorough forksel=1
//JOB p31_coord pt=0..2 forksel=1
//JOB p31_sym g=0..10 pt=0..2 forksel=1
//JOB p31_sym g=0,5,8..10 pt=3..6 forksel=1
//JOB p31_sym g=1,2 pt=3..5 forksel=1
//JOB p31_sym g=1,2 pt=6 tier=thorough forksel=1
//JOB p31_sym g=3,4,6 pt=3..6 tier=thorough forksel=1
//JOB p31_symc pt=0..2 forksel=1
//JOB p31_var g=0..10
//JOB p31_varck g=0..5,8..10 q=0..1 d=0..2 forksel=1
//JOB p31_varck g=6 q=0 d=0..2 forksel=1
//JOB p31_varck g=6 q=1 d=0..2 tier=thorough forksel=1
//JOB p31_varck g=7 q=0..1 d=0..2 tier=thorough forksel=1
//JOB p31_turn g=1..9 a=0..3
//JOB p31_grpck g=1..9 m=0..5 noend=1
//JOB p31_varc
//JOB p31_comp g=1..10 forksel=1
//JOB p31_copy g=1,4,8
//JOB p31_none k=0..3 forksel=1
//JOB p31_misc
#include "curve.h"
#include "matrix.h"
/* symmetric base curves: g -> kind of group, axis, order, curve */
static const struct { int n,c; double ax[3]; } G[11]={{1,0,{0,0,1}},{2,0,{0,0,1}},{2,0,{0,0,-3}},{3,1,{1,1,1}},{4,2,{0,0,2}},{2,3,{1,0,0}},{4,4,{0,2,0}},{6,5,{0,0,1}},{-2,0,{0,0,1}},{-2,6,{2,0,0}},{-2,3,{0,-5,0}}};
typedef struct { int nc,nv[2]; double v[2][6][3]; } base;
#define S3 1.7320508075688772
static const base BS[7]={{1,{4,0},{{{3,0,0},{0,4,0},{-3,0,0},{0,-4,0}}}},{1,{3,0},{{{6,0,1},{1,6,0},{0,1,6}}}},{1,{4,0},{{{3,1,1},{-1,3,1},{-3,-1,1},{1,-3,1}}}},{2,{2,2},{{{1,3,4},{5,3,4}},{{1,-3,-4},{5,-3,-4}}}},{2,{4,1},{{{3,0,0},{0,0,-3},{-3,0,0},{0,0,3}},{{0,7,0}}}},{1,{6,0},{{{4,0,0},{2,2*S3,0},{-2,2*S3,0},{-4,0,0},{-2,-2*S3,0},{2,-2*S3,0}}}},{2,{2,2},{{{2,1,5},{3,6,0}},{{-3,6,0},{-2,1,5}}}}};
/* target of (cp,vt) under the i-th element, read off the base curve */
static void app(const double A[3][3],const double *v,double *o){ int i,j; for(i=0;i<3;i++){ o[i]=0; for(j=0;j<3;j++) o[i]+=A[i][j]*v[j]; } }
static void mat(int g,int i,double A[3][3]){ int a,b,k; double u[3],n=0; for(k=0;k<3;k++) n+=G[g].ax[k]*G[g].ax[k]; n=sqrt(n); for(k=0;k<3;k++) u[k]=G[g].ax[k]/n; for(a=0;a<3;a++) for(b=0;b<3;b++) A[a][b]=a==b; if(i==0) return; if(G[g].n<0){ for(a=0;a<3;a++) for(b=0;b<3;b++) A[a][b]-=2*u[a]*u[b]; return; } double t=i*6.283185307179586/G[g].n,s=sin(t),c=cos(t); for(a=0;a<3;a++) for(b=0;b<3;b++) A[a][b]=u[a]*u[b]*(1-c)+(a==b?c:0); for(a=0;a<3;a++){ A[(a+2)%3][(a+1)%3]+=u[a]*s; A[(a+1)%3][(a+2)%3]-=u[a]*s; } }
static void tgt(const base *B,const double A[3][3],int cp,int vt,int *tc,int *tv){ double o[3],best=1e9; int c,v,k; app(A,B->v[cp][vt],o); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++){ double d=0; for(k=0;k<3;k++) d+=(o[k]-B->v[c][v][k])*(o[k]-B->v[c][v][k]); if(d<best){ best=d; *tc=c; *tv=v; } } }
static double eps(void){ double x=sym_real("e"); sym_assume(x<=0.3&&x>=-0.3); return x; }
/* pt selects which coordinates are arbitrary: 0..2 that one everywhere, 3 one vertex fully */
static void mk(const base *B,rcurve *r,int pt){ int c,v,k; memset(r,0,sizeof *r); r->nc=B->nc; for(c=0;c<B->nc;c++){ r->p[c].nv=B->nv[c]; r->p[c].open=B->nv[c]<3; for(v=0;v<B->nv[c];v++) for(k=0;k<3;k++) r->p[c].v[v][k]=B->v[c][v][k]+(pt<0?0:pt==3?(c==0&&v==1?eps():0):pt<3?(k==pt&&c==0&&v==1?eps():0):(k==pt-4&&(c==0?v==0:v==B->nv[c]-1)?eps():k==(pt-3)%3&&c==0&&v==1?eps():0)); } }
static int ord(int g){ return G[g].n<0?2:G[g].n; }
static plc_symmetry_group *grp(int g,plCurve *L){ plc_vector ax=V3(G[g].ax[0],G[g].ax[1],G[g].ax[2]); return G[g].n<0?plc_reflection_group(L,ax):plc_rotation_group(L,ax,G[g].n); }
/* the group as data: transforms[n], inverse[n] */
static void cmat(int i,double A[3][3]){ memset(A,0,9*sizeof(double)); A[0][0]=i&1?-1:1; A[1][1]=i&2?-1:1; A[2][2]=i&4?-1:1; }
static void chk_sym(const plc_symmetry *s,plCurve *L,const base *B,const double A[3][3]){ int a,b,c,v,tc,tv; CHECK(s!=0&&s->curve==L,"symmetry of this curve"); for(a=0;a<3;a++) for(b=0;b<3;b++) NEAR((*s->transform)[a][b],A[a][b],1e-9,"matrix of the symmetry"); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++){ tgt(B,A,c,v,&tc,&tv); CHECK(s->target[c][v].cp==tc&&s->target[c][v].vt==tv,"each vertex goes to the nearest vertex"); } }
/* turning the curve turns its group with it: every element still maps the vertices of the turned curve onto their targets */
void p31_turn(void){ static const double AX[4][4]={{0,0,1,0.7},{1,2,-2,1.9},{0,-3,0,-2.5},{-1,0,2,3.4}}; int g=sym_arg("g",1),a=sym_arg("a",0),i,j,c,v,k,m,n=ord(g); const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,-1); plCurve *L=rc_make(&r); L->G=grp(g,L); CHECK(L->G!=0,"group"); double t=sym_real("angle"); plc_rotate(L,V3(AX[a][0],AX[a][1],AX[a][2]),t); CHECK(L->G!=0&&L->G->n==n,"turned curve keeps its group"); for(i=0;i<n;i++){ plc_symmetry *s=L->G->sym[i]; for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++){ struct plc_vertex_loc w=s->target[c][v]; CHECK(w.cp>=0&&w.cp<B->nc&&w.vt>=0&&w.vt<B->nv[w.cp],"target in range"); for(k=0;k<3;k++){ double x=0; for(m=0;m<3;m++) x+=(*s->transform)[k][m]*L->cp[c].vt[v].c[m]; NEAR(x,L->cp[w.cp].vt[w.vt].c[k],1e-6,"elements of the group of a turned curve are its symmetries"); } } j=L->G->inverse[i]; for(c=0;c<3;c++) for(v=0;v<3;v++){ double q=0; for(k=0;k<3;k++) q+=(*s->transform)[c][k]*(*L->G->sym[j]->transform)[k][v]; NEAR(q,c==v,1e-6,"inverse of each element"); } } plc_free(L); sym_reach("end"); }
void p31_group(void){ int g=sym_arg("g",1),i,j,a,b,k,n=ord(g); const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,sym_arg("pt",0)); plCurve *L=rc_make(&r); plc_symmetry_group *H=grp(g,L); CHECK(H!=0,"nearly symmetric curves have their symmetry group"); CHECK(H->n==n,"order of the group"); for(i=0;i<n;i++){ double A[3][3]; mat(g,i,A); chk_sym(H->sym[i],L,B,A); j=H->inverse[i]; CHECK(j>=0&&j<n,"inverse in the group"); for(a=0;a<3;a++) for(b=0;b<3;b++){ double q=0; for(k=0;k<3;k++) q+=(*H->sym[i]->transform)[a][k]*(*H->sym[j]->transform)[k][b]; NEAR(q,a==b,1e-9,"inverse of each element"); } } rc_check(L,&r,0); plc_symmetry_group_free(&H); CHECK(H==0,"freed group is cleared"); plc_symmetry_group_free(&H); plc_free(L); sym_reach("end"); }
static const double OC[3]={2,3,5};
static void cbase(base *B,double v[8][3]){ static const int gray[8]={0,1,3,2,6,7,5,4}; int i,k; for(i=0;i<8;i++) for(k=0;k<3;k++) v[i][k]=(gray[i]>>k)&1?-OC[k]:OC[k]; }
static void cmk(rcurve *r,int pt){ double v[8][3]; int i,k; cbase(0,v); memset(r,0,sizeof *r); r->nc=1; r->p[0].nv=8; for(i=0;i<8;i++) for(k=0;k<3;k++) r->p[0].v[i][k]=v[i][k]+(pt<0?0:pt==3?(i<1?eps():0):pt<3?(k==pt&&i==3?eps():0):(k==pt-4&&(i==0||i==5)?eps():0)); }
static int ctgt(int v,double A[3][3]){ double w[8][3]; int i,k; cbase(0,w); for(i=0;i<8;i++){ int ok=1; for(k=0;k<3;k++) if(w[i][k]!=A[k][k]*w[v][k]) ok=0; if(ok) return i; } return -1; }
/* the group generated by the coordinate reflections: index of each of its elements in H */
static void cfind(plc_symmetry_group *H,int ix[8]){ int i,m; for(m=0;m<8;m++){ double A[3][3]; cmat(m,A); ix[m]=-1; for(i=0;i<H->n;i++){ int a,b,ok=1; for(a=0;a<3;a++) for(b=0;b<3;b++) if(fabs((*H->sym[i]->transform)[a][b]-A[a][b])>1e-9) ok=0; if(ok){ CHECK(ix[m]<0,"each element once"); ix[m]=i; } } } }
void p31_coord(void){ rcurve r; int m,v,ix[8]; cmk(&r,sym_arg("pt",0)); plCurve *L=rc_make(&r); plc_symmetry_group *H=plc_coordplanes_reflection_group(L); CHECK(H!=0,"nearly symmetric curves have their symmetry group"); cfind(H,ix); CHECK(H->n==8,"the group generated by the three reflections"); for(m=0;m<8;m++){ double A[3][3]; CHECK(ix[m]>=0,"all products of the reflections"); cmat(m,A); CHECK(H->inverse[ix[m]]==ix[m],"each element is its own inverse"); for(v=0;v<8;v++) CHECK(H->sym[ix[m]]->target[0][v].cp==0&&H->sym[ix[m]]->target[0][v].vt==ctgt(v,A),"each vertex goes to the nearest vertex"); } plc_symmetry_group_free(&H); plc_free(L); sym_reach("end"); }
/* averaging over the group */
static void avg(int g,const base *B,double in[2][6][3],double out[2][6][3]){ int c,v,i,k,n=ord(g); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++){ double s[3]={0,0,0}; for(i=0;i<n;i++){ double A[3][3],T[3][3],o[3]; int tc,tv,a,b; mat(g,i,A); tgt(B,A,c,v,&tc,&tv); for(a=0;a<3;a++) for(b=0;b<3;b++) T[a][b]=A[b][a]; app(T,in[tc][tv],o); for(k=0;k<3;k++) s[k]+=o[k]; } for(k=0;k<3;k++) out[c][v][k]=s[k]/n; } }
void p31_sym(void){ int g=sym_arg("g",1),c,v,k; const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,sym_arg("pt",0)); plCurve *L=rc_make(&r); L->G=grp(g,L); CHECK(L->G!=0,"group"); double in[2][6][3],out[2][6][3]; for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++) for(k=0;k<3;k++) in[c][v][k]=r.p[c].v[v][k]; avg(g,B,in,out); plc_symmetrize(L); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++) for(k=0;k<3;k++) r.p[c].v[v][k]=out[c][v][k]; rc_check(L,&r,1e-6); double e=plc_symmetry_group_check(L); CHECK(e<=1e-6&&e>=0,"a symmetrized curve is symmetric"); plc_free(L); sym_reach("end"); }
void p31_symc(void){ rcurve r; int m,v,k; cmk(&r,sym_arg("pt",0)); plCurve *L=rc_make(&r); L->G=plc_coordplanes_reflection_group(L); CHECK(L->G!=0,"group"); rcurve o=r; for(v=0;v<8;v++) for(k=0;k<3;k++){ double s=0; for(m=0;m<8;m++){ double A[3][3]; cmat(m,A); s+=A[k][k]*o.p[0].v[ctgt(v,A)][k]; } r.p[0].v[v][k]=s/8; } plc_symmetrize(L); rc_check(L,&r,1e-6); double e=plc_symmetry_group_check(L); CHECK(e<=1e-6&&e>=0,"a symmetrized curve is symmetric"); plc_free(L); sym_reach("end"); }
void p31_var(void){ int g=sym_arg("g",1),c,v,k,n=0; const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,-1); plCurve *L=rc_make(&r); L->G=grp(g,L); CHECK(L->G!=0,"group"); double in[2][6][3],out[2][6][3]; plc_vector *b=malloc(plc_num_verts(L)*sizeof *b); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++,n++) for(k=0;k<3;k++){ in[c][v][k]=sym_real("w"); sym_assume(in[c][v][k]<=20&&in[c][v][k]>=-20); b[n].c[k]=in[c][v][k]; } avg(g,B,in,out); plc_symmetrize_variation(L,b); n=0; for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++,n++) for(k=0;k<3;k++) NEAR(b[n].c[k],out[c][v][k],1e-6,"average of the variation over the group"); rc_check(L,&r,0); free(b); plc_free(L); sym_reach("end"); }
void p31_varck(void){ int g=sym_arg("g",1),c,v,k,n=0; const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,-1); plCurve *L=rc_make(&r); L->G=grp(g,L); CHECK(L->G!=0,"group"); double in[2][6][3],out[2][6][3]; plc_vector *b=malloc(plc_num_verts(L)*sizeof *b); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++,n++) for(k=0;k<3;k++){ in[c][v][k]=n+k*k-2; if(n==sym_arg("q",0)&&k==sym_arg("d",0)){ in[c][v][k]=sym_real("w"); sym_assume(in[c][v][k]<=20&&in[c][v][k]>=-20); } b[n].c[k]=in[c][v][k]; } avg(g,B,in,out); plc_symmetrize_variation(L,b); n=0; for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++,n++) for(k=0;k<3;k++) NEAR(b[n].c[k],out[c][v][k],1e-6,"average of the variation over the group"); double e=plc_symmetry_group_variation_check(L,b); CHECK(e<=1e-6&&e>=0,"a symmetrized variation is symmetric"); rc_check(L,&r,0); free(b); plc_free(L); sym_reach("end"); }
void p31_varc(void){ rcurve r; int m,v,k; cmk(&r,-1); plCurve *L=rc_make(&r); L->G=plc_coordplanes_reflection_group(L); plc_vector *b=malloc(8*sizeof *b),o[8]; for(v=0;v<8;v++) for(k=0;k<3;k++) b[v].c[k]=o[v].c[k]=sym_real("w"); plc_symmetrize_variation(L,b); for(v=0;v<8;v++) for(k=0;k<3;k++){ double s=0; for(m=0;m<8;m++){ double A[3][3]; cmat(m,A); s+=A[k][k]*o[ctgt(v,A)].c[k]; } NEAR(b[v].c[k],s/8,1e-9,"average of the variation over the group"); } free(b); plc_free(L); sym_reach("end"); }
/* composition: first the one, then the other */
void p31_comp(void){ int g=sym_arg("g",1),n=ord(g),i=n>1,j,c,v,a,b,k; const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,-1); plCurve *L=rc_make(&r); plc_symmetry_group *H=grp(g,L); CHECK(H!=0,"group"); plc_matrix R; int tc[2][6],tv[2][6]; double AR[3][3]; 
  plc_symmetry *X=plc_symmetry_new(L); X->transform=plc_matrix_copy(H->sym[i]->transform); for(a=0;a<3;a++) for(b=0;b<3;b++) (*X->transform)[a][b]=sym_real("m"); for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++){ X->target[c][v].cp=c; X->target[c][v].vt=B->nv[c]-1-v; }
  for(j=0;j<2;j++){ plc_symmetry *p=j?X:H->sym[i],*q=j?H->sym[i]:X,*s=plc_compose_symmetries(p,q); CHECK(s->curve==L,"symmetry of this curve"); for(a=0;a<3;a++) for(b=0;b<3;b++){ double x=0; for(k=0;k<3;k++) x+=(*q->transform)[a][k]*(*p->transform)[k][b]; NEAR((*s->transform)[a][b],x,1e-9,"product of the matrices, second times first"); } for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++){ struct plc_vertex_loc t=p->target[c][v]; CHECK(s->target[c][v].cp==q->target[t.cp][t.vt].cp&&s->target[c][v].vt==q->target[t.cp][t.vt].vt,"first the first, then the second"); } plc_symmetry_free(&s); CHECK(s==0,"freed symmetry is cleared"); } plc_symmetry_free(&X); plc_symmetry_group_free(&H); plc_free(L); sym_reach("end"); }
void p31_copy(void){ int g=sym_arg("g",1),n=ord(g),i,a,b,c,v; const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,-1); plCurve *L=rc_make(&r); plc_symmetry_group *H=grp(g,L),*K=plc_symmetry_group_copy(H); plc_symmetry *s=plc_symmetry_copy(H->sym[1]); (*H->sym[1]->transform)[0][0]=17; H->sym[1]->target[0][0].vt=99; H->inverse[1]=77; plc_symmetry_group_free(&H); CHECK(K->n==n,"order"); for(i=0;i<n;i++){ double A[3][3]; mat(g,i,A); chk_sym(K->sym[i],L,B,A); CHECK(K->inverse[i]==(n-i)%n,"inverse"); if(i==1) chk_sym(s,L,B,A); } plc_symmetry_free(&s); plc_symmetry_group_free(&K); plc_free(L); sym_reach("end"); }
/* curves without the symmetry: two vertices would go to the same one */
void p31_none(void){ int k=sym_arg("k",0); rcurve r; memset(&r,0,sizeof r); r.nc=1; r.p[0].nv=3; static const double v[3][3]={{5,1,1},{6,2,3},{7,-1,2}}; int i,j; for(i=0;i<3;i++) for(j=0;j<3;j++) r.p[0].v[i][j]=v[i][j]; double e=sym_real("e"); sym_assume(e>=0&&e<=0.5); r.p[0].v[1][2]+=e; if(k==3){ double w[4][3]={{5,3,1},{-5,3,1},{5,4,2},{-5,4,2}}; r.p[0].nv=4; for(i=0;i<4;i++) for(j=0;j<3;j++) r.p[0].v[i][j]=w[i][j]; r.p[0].v[2][2]+=e; } plCurve *L=rc_make(&r); plc_symmetry_group *H=k==0?plc_rotation_group(L,V3(0,0,1),2):k==1?plc_reflection_group(L,V3(1,0,0)):plc_coordplanes_reflection_group(L); CHECK(H==0,"no symmetry group without the symmetry"); rc_check(L,&r,0); plc_free(L); sym_reach("end"); }
/* one element of the group made wrong: the error of the group is the error of that element, wherever it stands */
void p31_grpck(void){ int g=sym_arg("g",1),m=sym_arg("m",0),c,v,n=ord(g); if(m>=n){ sym_reach("end"); return; } const base *B=&BS[G[g].c]; rcurve r; mk(B,&r,-1); plCurve *L=rc_make(&r); L->G=grp(g,L); CHECK(L->G!=0,"group"); double x=sym_real("x"),far=0,e; sym_assume(x>=1&&x<=5); plc_vector *b=malloc(plc_num_verts(L)*sizeof *b); int k=0; for(c=0;c<B->nc;c++) for(v=0;v<B->nv[c];v++,k++){ double d=fabs(B->v[c][v][0]); if(d>far) far=d; b[k]=V3(B->v[c][v][0],B->v[c][v][1],B->v[c][v][2]); } double t=(*L->G->sym[m]->transform)[2][0]; (*L->G->sym[m]->transform)[2][0]=t+x; e=plc_symmetry_group_check(L); NEAR(e,far*x,1e-6,"largest error over the group"); e=plc_symmetry_group_variation_check(L,b); NEAR(e,far*x,1e-6,"largest error of the variation over the group"); free(b); plc_free(L); sym_reach("end"); }
void p31_misc(void){ rcurve r; mk(&BS[0],&r,-1); plCurve *L=rc_make(&r); CHECK(plc_symmetry_group_new(0)==0&&plc_symmetry_group_new(-3)==0,"no empty group"); CHECK(plc_symmetry_copy(0)==0&&plc_symmetry_group_copy(0)==0,"copy of nothing"); plc_symmetrize(L); CHECK(plc_symmetry_group_check(L)==0,"no group, no error"); rc_check(L,&r,0); plc_vector w[4]; int i; for(i=0;i<4;i++) w[i]=V3(1,2,i); plc_symmetrize_variation(L,w); CHECK(w[3].c[2]==3&&plc_symmetry_group_variation_check(L,w)==0,"no group, no change"); 
  /* error of a symmetry: the largest distance between image and target */
  plc_matrix A; plc_identity_matrix(&A); plc_symmetry *s=plc_build_symmetry(&A,L); CHECK(s!=0,"identity"); double x=sym_real("x"); sym_assume(x>=-5&&x<=5); A[0][0]=1; (*s->transform)[2][0]=x; double e=plc_symmetry_check(L,s); NEAR(e*e,9*x*x,1e-6,"largest error over the vertices"); for(i=0;i<4;i++) w[i]=V3(i==2?2:0,7,0); e=plc_symmetry_variation_check(L,w,s); NEAR(e*e,4*x*x,1e-6,"largest error over the variation"); plc_symmetry_free(&s); plc_free(L); sym_reach("end"); }
