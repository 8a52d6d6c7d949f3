/* P43: triangulations of a polygon and the polygon they describe */
//BOUND every system of non-crossing diagonals of a polygon of 3..6 (thorough 7) edges, in every order and direction; the built-in triangulations of 3..10 edges, random ones of 3..7 edges with every choice of the random generator; any pair or triple of chords on vertices numbered 0..9; every index of a triangulation of 4..6 edges replaced by any number outside its range; lengths and angles of polygons of 3..5 edges with two arbitrary ones
//BOUND outside: rounding (real arithmetic; sine and cosine are any pair with squares adding up to 1); the Markov chain steps
//STUB gsl_rng_uniform_int : any value of its range
//JOB p43_gen n=3..6
//JOB p43_gen n=7 tier=thorough
//JOB p43_std k=0..2 n=3..10
//JOB p43_std k=3 n=3..6
//JOB p43_std k=3 n=7 tier=thorough
//JOB p43_cross m=2..3
//JOB p43_bad k=0..2 n=4..6 f=0..6
//JOB p43_bad k=0..2 n=4..6 f=7..8
//JOB p43_num k=0..2 n=4..7
//JOB p43_len k=0..2 n=4..5 q=0..4
//JOB p43_tri q=0..5
//JOB p43_tri0 z=0..3
//JOB p43_embed k=0..2 n=4..5 q=0..3
//JOB p43_dih k=0..2 n=4..5 q=0..1 h=0..3
//JOB p43_ang k=0..2 n=4..5 q=0..3 s=0..1
//DEFS -fno-inline
#include "curve.h"
#include "tsmcmc.h"
#include <gsl/gsl_rng.h>
unsigned long gsl_rng_uniform_int(const gsl_rng *r,unsigned long n){ (void)r; CHECK(n>=1,"random choice from at least one value"); return (unsigned long)sym_choice("rng",0,(int)n-1); }
static int vt(tsmcmc_triangulation_t *T,int c,int t,int w){ return t==edge?T->edges[c].vt[w]:T->diags[c].vt[w]; }
/* reference: every diagonal and edge of the polygon is used as the structure says, and the triangles fit together */
static void okT(tsmcmc_triangulation_t T,int n){ int i,j,par[16]={0},dau[16]={0},ed[16]={0};
  CHECK(T.nedges==n&&T.ntri==n-2&&T.ndiags==n-3,"numbers of edges, triangles and diagonals"); for(i=0;i<n;i++) CHECK(T.edges[i].vt[0]==i&&T.edges[i].vt[1]==(i+1)%n,"edges of the polygon");
  for(i=0;i<n-3;i++){ int a=T.diags[i].vt[0],b=T.diags[i].vt[1]; CHECK(a>=0&&a<n&&b>=0&&b<n&&a!=b&&(a+1)%n!=b&&(b+1)%n!=a,"diagonals join vertices that are not neighbours"); }
  CHECK(T.triangles[0].parent_chord==0&&T.triangles[0].parent_type==edge,"the first edge is the parent of the root");
  for(i=0;i<n-2;i++){ tsmcmc_triangle_t *t=&T.triangles[i]; int p0,p1,v[3]; CHECK(t->parent_type==(i?diagonal:edge)&&t->parent_chord>=0&&t->parent_chord<(i?n-3:n),"parent chord"); if(i) par[t->parent_chord]++; p0=vt(&T,t->parent_chord,t->parent_type,i?1:0); p1=vt(&T,t->parent_chord,t->parent_type,i?0:1);
    for(j=0;j<2;j++){ int c=t->daughter_chord[j]; CHECK((t->daughter_type[j]==edge||t->daughter_type[j]==diagonal)&&c>=0&&c<(t->daughter_type[j]==edge?n:n-3),"daughter chord"); if(t->daughter_type[j]==edge){ ed[c]++; CHECK(t->daughter_tri[j]==-1,"no triangle beyond an edge"); } else { dau[c]++; int d=t->daughter_tri[j]; CHECK(d>0&&d<n-2&&T.triangles[d].parent_type==diagonal&&T.triangles[d].parent_chord==c,"the daughter triangle lies beyond the daughter chord"); } v[j]=vt(&T,c,t->daughter_type[j],0); v[2]=vt(&T,c,t->daughter_type[j],1); if(j==0) CHECK(v[0]==p1,"first daughter starts at the end of the parent"); else CHECK(v[2]==p0,"second daughter ends at the start of the parent"); }
    CHECK(vt(&T,t->daughter_chord[0],t->daughter_type[0],1)==v[1],"daughters meet"); CHECK(p0!=p1&&v[1]!=p0&&v[1]!=p1,"three different corners"); }
  for(i=0;i<n-3;i++) CHECK(par[i]==1&&dau[i]==1,"each diagonal separates two triangles"); for(i=1;i<n;i++) CHECK(ed[i]==1,"each edge belongs to one triangle"); CHECK(ed[0]==0,"each edge belongs to one triangle");
  CHECK(tsmcmc_triangulation_ok(T),"the triangulation passes its own check"); }
static int between(int a,int b,int x){ int lo=a<b?a:b,hi=a<b?b:a; return x>lo&&x<hi; }
static int rcross(tsmcmc_chord_t A,tsmcmc_chord_t B){ int a=A.vt[0],b=A.vt[1],c=B.vt[0],d=B.vt[1]; if((a==c&&b==d)||(a==d&&b==c)) return 1; if(a==c||a==d||b==c||b==d) return 0; return between(a,b,c)!=between(a,b,d); }
static int same(tsmcmc_chord_t A,int a,int b){ return (A.vt[0]==a&&A.vt[1]==b)||(A.vt[0]==b&&A.vt[1]==a); }
void p43_gen(void){ int n=sym_arg("n",5),i,j; tsmcmc_chord_t c[8]; for(i=0;i<n-3;i++){ int a=sym_choice("a",0,n-1),b=sym_choice("b",0,n-1); sym_assume(a!=b&&(a+1)%n!=b&&(b+1)%n!=a); c[i].vt[0]=a; c[i].vt[1]=b; for(j=0;j<i;j++) sym_assume(!rcross(c[i],c[j])); } CHECK(tsmcmc_chord_system_ok(n-3,c),"a system of non-crossing chords is accepted"); tsmcmc_chord_t o[8]; memcpy(o,c,sizeof o);
  tsmcmc_triangulation_t T=tsmcmc_generate_triangulation(n,c); CHECK(memcmp(o,c,(n-3)*sizeof *c)==0,"the chord system is unchanged"); okT(T,n); for(i=0;i<n-3;i++) CHECK(same(T.diags[i],c[i].vt[0],c[i].vt[1]),"diagonals are the given chords, in order"); tsmcmc_triangulation_free(T); sym_reach("end"); }
static tsmcmc_triangulation_t std(int k,int n){ return k==0?tsmcmc_fan_triangulation(n):k==1?tsmcmc_spiral_triangulation(n):k==2?tsmcmc_teeth_triangulation(n):tsmcmc_random_triangulation(0,n); }
void p43_std(void){ int k=sym_arg("k",0),n=sym_arg("n",5),i,j; tsmcmc_triangulation_t T=std(k,n); okT(T,n); for(i=0;i<n-3;i++) for(j=0;j<i;j++) CHECK(!rcross(T.diags[i],T.diags[j]),"diagonals do not cross"); if(k==0) for(i=0;i<n-3;i++) CHECK(same(T.diags[i],0,i+2),"a fan joins the first vertex to the others in order"); if(k==2) for(i=1;i<n-3;i++) CHECK(T.diags[i].vt[0]==T.diags[i-1].vt[0]||T.diags[i].vt[0]==T.diags[i-1].vt[1]||T.diags[i].vt[1]==T.diags[i-1].vt[0]||T.diags[i].vt[1]==T.diags[i-1].vt[1],"consecutive diagonals of teeth share a vertex"); tsmcmc_triangulation_free(T); sym_reach("end"); }
void p43_cross(void){ int m=sym_arg("m",2),i,j,x=0; tsmcmc_chord_t c[3]; for(i=0;i<m;i++){ c[i].vt[0]=sym_range("a",0,m==2?9:5); c[i].vt[1]=sym_range("b",0,m==2?9:5); sym_assume(c[i].vt[0]!=c[i].vt[1]); } for(i=0;i<m;i++) for(j=0;j<i;j++) x|=rcross(c[i],c[j]); CHECK(tsmcmc_chord_system_ok(m,c)==!x,"a chord system is accepted exactly when no two chords cross or coincide"); sym_reach("end"); }
void p43_bad(void){ int k=sym_arg("k",0),n=sym_arg("n",5),f=sym_arg("f",0),i,v=(int)sym_u32("v"); tsmcmc_triangulation_t T=std(k,n); i=sym_choice("i",0,f<5?n-3:f==5?n-1:f==6?n-4:0); int w=sym_choice("w",0,1); tsmcmc_triangle_t *t=&T.triangles[f<5?i:0];
  if(f==0){ sym_assume(v<0||v>=(t->parent_type==edge?n:n-3)); t->parent_chord=v; } else if(f==1){ sym_assume(v<0||v>=(t->daughter_type[w]==edge?n:n-3)); t->daughter_chord[w]=v; } else if(f==2){ sym_assume(v<-1||v>=n-2); t->daughter_tri[w]=v; } else if(f==3){ sym_assume(v!=diagonal&&v!=edge); t->daughter_type[w]=v; } else if(f==4){ sym_assume(v!=diagonal&&v!=edge); t->parent_type=v; } else if(f==5){ sym_assume(v<0||v>=n); T.edges[i].vt[w]=v; } else if(f==6){ sym_assume(v<0||v>=n); T.diags[i].vt[w]=v; } else if(f==7){ sym_assume(v!=n-2); T.ntri=v; } else { sym_assume(v!=n-3); T.ndiags=v; }
  CHECK(!tsmcmc_triangulation_ok(T),"an index outside its range is rejected"); sym_reach("end"); }
void p43_num(void){ int k=sym_arg("k",0),n=sym_arg("n",5),a=sym_range("a",-1,n),b=sym_range("b",-1,n),i,x=-1; tsmcmc_triangulation_t T=std(k,n); for(i=n-4;i>=0;i--) if(same(T.diags[i],a,b)) x=i; CHECK(tsmcmc_triangulation_chordnum(T,a,b)==x,"number of the diagonal between two vertices"); sym_reach("end"); }
static double e2(const plc_vector *a,const plc_vector *b){ double x=a->c[0]-b->c[0],y=a->c[1]-b->c[1],z=a->c[2]-b->c[2]; return x*x+y*y+z*z; }
static const double PV[6][3]={{0,0,0},{1,0,0.25},{1.5,1,0},{0.5,1.75,0.5},{-0.5,1,-0.25},{-1,0.5,0.125}};
void p43_len(void){ int k=sym_arg("k",0),n=sym_arg("n",5),q=sym_arg("q",0),i,j; if(q>=n) { sym_reach("end"); return; } bool open=false; int cc=0; plCurve *L=plc_new(1,&n,&open,&cc); for(i=0;i<n;i++) for(j=0;j<3;j++) L->cp[0].vt[i].c[j]=PV[i][j]; double x=sym_real("x"),y=sym_real("y"); sym_assume(x>=-4&&x<=4&&y>=-4&&y<=4); L->cp[0].vt[q].c[0]=x; L->cp[0].vt[q].c[2]=y; plc_fix_wrap(L); tsmcmc_triangulation_t T=std(k,n); double d[8],e[8]; tsmcmc_compute_diagonals(L,T,d); tsmcmc_compute_edgelengths(L,T,e);
  for(i=0;i<n;i++){ CHECK(e[i]>=0,"length"); NEAR(e[i]*e[i],e2(&L->cp[0].vt[i],&L->cp[0].vt[(i+1)%n]),1e-6,"edge lengths"); } for(i=0;i<n-3;i++){ CHECK(d[i]>=0,"length"); NEAR(d[i]*d[i],e2(&L->cp[0].vt[T.diags[i].vt[0]],&L->cp[0].vt[T.diags[i].vt[1]]),1e-6,"diagonal lengths"); } plc_free(L); tsmcmc_triangulation_free(T); sym_reach("end"); }
/* a triangle of given sides */
void p43_tri(void){ int q=sym_arg("q",0),i; double e[3]={1,1.25,0.75}; double x=sym_real("x"),y=q>=3?sym_real("y"):0; sym_assume(x>=-1&&x<=3&&y>=-1&&y<=3); if(q<3) e[q]=x; else { e[q-3]=x; e[(q-2)%3]=y; } for(i=0;i<3;i++) sym_assume(e[i]<0||e[i]>=0.0625); int bad=0; for(i=0;i<3;i++) if(e[i]<0||e[i]>e[(i+1)%3]+e[(i+2)%3]) bad=1; for(i=0;i<3;i++) sym_assume(bad||e[i]<=e[(i+1)%3]+e[(i+2)%3]);
  tsmcmc_triangulation_t T=tsmcmc_fan_triangulation(3); plCurve *L=tsmcmc_embed_polygon(T,e,0,0); if(bad) CHECK(L==NULL,"no triangle has these sides"); else { CHECK(L!=NULL&&L->nc==1&&L->cp[0].nv==3&&!L->cp[0].open,"a closed polygon"); for(i=0;i<3;i++) NEAR(e2(&L->cp[0].vt[i],&L->cp[0].vt[(i+1)%3]),e[i]*e[i],1e-6,"sides of the triangle"); plc_free(L); } sym_reach("end"); }
/* q: arbitrary diagonal length, arbitrary dihedral, both, arbitrary edge */
void p43_embed(void){ int k=sym_arg("k",0),n=sym_arg("n",4),q=sym_arg("q",0),i; tsmcmc_triangulation_t T=std(k,n); double e[8],d[8],h[8]; for(i=0;i<n;i++) e[i]=1+0.0625*i; for(i=0;i<n-3;i++){ d[i]=1.25+0.125*i; h[i]=1.5+i; } double x=sym_real("x"); if(q==0||q==2){ sym_assume(x>=0.5&&x<=1.75); d[0]=x; } if(q==1||q==2){ double y=sym_real("y"); sym_assume(y>=0&&y<=6); h[0]=y; } if(q==3){ sym_assume(x>=0.75&&x<=1.5); e[n-1]=x; }
  plCurve *L=tsmcmc_embed_polygon(T,e,d,h); CHECK(L!=NULL,"the polygon is embedded"); CHECK(L->nc==1&&L->cp[0].nv==n&&!L->cp[0].open,"a closed polygon"); for(i=0;i<n;i++) NEAR(e2(&L->cp[0].vt[i],&L->cp[0].vt[(i+1)%n]),e[i]*e[i],1e-5,"edges have the given lengths"); for(i=0;i<n-3;i++) NEAR(e2(&L->cp[0].vt[T.diags[i].vt[0]],&L->cp[0].vt[T.diags[i].vt[1]]),d[i]*d[i],1e-5,"diagonals have the given lengths"); plc_free(L); tsmcmc_triangulation_free(T); sym_reach("end"); }
/* the angles between the triangles are the given ones: x an arbitrary diagonal or edge */
static double dt(plc_vector a,plc_vector b){ return a.c[0]*b.c[0]+a.c[1]*b.c[1]+a.c[2]*b.c[2]; }
static void angles(tsmcmc_triangulation_t T,plCurve *L,double *d,double *h,int n){ int i,j,w; for(i=0;i<n-3;i++){ int pa=-1,pb=-1; for(j=0;j<n-2;j++){ tsmcmc_triangle_t *t=&T.triangles[j]; for(w=0;w<2;w++) if(t->daughter_type[w]==diagonal&&t->daughter_chord[w]==i) pa=w==0?vt(&T,t->daughter_chord[1],t->daughter_type[1],1):vt(&T,t->daughter_chord[0],t->daughter_type[0],0); if(t->parent_type==diagonal&&t->parent_chord==i) pb=vt(&T,t->daughter_chord[0],t->daughter_type[0],1); }
    plc_vector o=L->cp[0].vt[T.diags[i].vt[0]],c=L->cp[0].vt[T.diags[i].vt[1]],u=L->cp[0].vt[pa],v=L->cp[0].vt[pb]; for(j=0;j<3;j++){ c.c[j]-=o.c[j]; u.c[j]-=o.c[j]; v.c[j]-=o.c[j]; } double cl=d[i],au=dt(u,c)/(cl*cl),av=dt(v,c)/(cl*cl); for(j=0;j<3;j++){ u.c[j]-=au*c.c[j]; v.c[j]-=av*c.c[j]; } double m=sqrt(dt(u,u))*sqrt(dt(v,v)); NEAR(dt(u,v),m*cos(h[i]),1e-4,"angle between the triangles at a diagonal"); double tr=c.c[0]*(u.c[1]*v.c[2]-u.c[2]*v.c[1])+c.c[1]*(u.c[2]*v.c[0]-u.c[0]*v.c[2])+c.c[2]*(u.c[0]*v.c[1]-u.c[1]*v.c[0]); NEAR(tr,cl*m*sin(h[i]),1e-4,"side to which the diagonal is folded"); } }
void p43_dih(void){ static const double H[4]={0.5,2,4,5.75}; int k=sym_arg("k",0),n=sym_arg("n",4),q=sym_arg("q",0),hh=sym_arg("h",0),i,j,w; tsmcmc_triangulation_t T=std(k,n); double e[8],d[8],h[8]; for(i=0;i<n;i++) e[i]=1+0.0625*i; for(i=0;i<n-3;i++){ d[i]=1.25+0.125*i; h[i]=H[(hh+i)%4]; } double x=sym_real("x"); if(q==0){ sym_assume(x>=0.5&&x<=1.75); d[0]=x; } else { sym_assume(x>=0.75&&x<=1.5); e[n-1]=x; }
  plCurve *L=tsmcmc_embed_polygon(T,e,d,h); CHECK(L!=NULL,"the polygon is embedded"); angles(T,L,d,h,n); plc_free(L); tsmcmc_triangulation_free(T); sym_reach("end"); }
void p43_ang(void){ int k=sym_arg("k",0),n=sym_arg("n",5),q=sym_arg("q",0),sg=sym_arg("s",0),i,j; bool open=false,df[8]; int cc=0; plCurve *L=plc_new(1,&n,&open,&cc); for(i=0;i<n;i++) for(j=0;j<3;j++) L->cp[0].vt[i].c[j]=PV[i][j]; double x=sym_real("x"); if(sg) sym_assume(x>=0.75&&x<=2); else sym_assume(x>=-2&&x<=-0.75); L->cp[0].vt[q].c[2]=x; plc_fix_wrap(L); tsmcmc_triangulation_t T=std(k,n); double d[8],g[8]; tsmcmc_compute_dihedral_angles(L,T,g,df); for(i=0;i<n-3;i++){ CHECK(df[i],"the angle is defined"); d[i]=sqrt(e2(&L->cp[0].vt[T.diags[i].vt[0]],&L->cp[0].vt[T.diags[i].vt[1]])); } angles(T,L,d,g,n); plc_free(L); tsmcmc_triangulation_free(T); sym_reach("end"); }
/* triangles with a side of length zero */
void p43_tri0(void){ int z=sym_arg("z",0),i; double x=sym_real("x"),e[3]; sym_assume(x>=0.0625&&x<=4); for(i=0;i<3;i++) e[i]=i==z||z==3?0:x; tsmcmc_triangulation_t T=tsmcmc_fan_triangulation(3); plCurve *L=tsmcmc_embed_polygon(T,e,0,0); CHECK(L!=NULL&&L->nc==1&&L->cp[0].nv==3&&!L->cp[0].open,"a closed polygon"); for(i=0;i<3;i++) NEAR(e2(&L->cp[0].vt[i],&L->cp[0].vt[(i+1)%3]),e[i]*e[i],1e-6,"sides of the triangle"); plc_free(L); sym_reach("end"); }
