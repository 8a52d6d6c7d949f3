/* P26: vector and matrix algebra */
//BOUND all vectors/scalars arbitrary exact reals; for angles, normalisation and rotations the second vector (axis) ranges over 7 fixed directions (including non-unit and axis-aligned ones) while the first vector and the angle are arbitrary; doubles are modelled as exact reals (rounding is outside the bound), tolerance 1e-9
//JOB p26_lin
//JOB p26_mult
//JOB p26_div nul=0..1
//JOB p26_eq
//JOB p26_norm
//JOB p26_normalize
//JOB p26_normzero nul=0
//JOB p26_normzero nul=1 noend=1
//JOB p26_angle d=0..6 sw=0..1
//JOB p26_angle0
//JOB p26_adist p=0..4 sw=0..1
//JOB p26_circ
//JOB p26_circbad k=0..2
//JOB p26_normal d=0..3
//JOB p26_dihedral nul=0..1 o=0..2 h=1..2
//JOB p26_dihbad k=0..2 nul=0..1
//JOB p26_planes d=0..3
//JOB p26_planesbad k=0..2
//JOB p26_inrad d=0,1,3
//JOB p26_rotvec d=0..3,5,6 e=0..1
//JOB p26_rotvec d=4 e=0
//JOB p26_rotax d=0..6
//JOB p26_rotzero
//JOB p26_rotmat d=0..6
//JOB p26_refl d=0..6
//JOB p26_matvec
//JOB p26_matmat r=0..2
//JOB p26_solve p=0..5
//JOB p26_solve2 p=0..5
//JOB p26_singular
#include "curve.h"
#include "matrix.h"
void plc_rotation_matrix(plc_vector axis,double t,plc_matrix *A);
static const double DR[7][3]={{0,0,1},{2,0,0},{0,-3,0},{1,2,-2},{4,3,0},{1,1,1},{-1,0,2}};
static plc_vector sv(const char *n){ double a=sym_real(n),b=sym_real(n),c=sym_real(n); return V3(a,b,c); }
static plc_vector svb(const char *n){ plc_vector v=sv(n); int i; for(i=0;i<3;i++) sym_assume(v.c[i]<=100&&v.c[i]>=-100); return v; }
static plc_vector dirv(void){ const double *d=DR[sym_arg("d",0)]; return V3(d[0],d[1],d[2]); }
static double dot(plc_vector a,plc_vector b){ return a.c[0]*b.c[0]+a.c[1]*b.c[1]+a.c[2]*b.c[2]; }
static plc_vector crs(plc_vector a,plc_vector b){ return V3(a.c[1]*b.c[2]-a.c[2]*b.c[1],a.c[2]*b.c[0]-a.c[0]*b.c[2],a.c[0]*b.c[1]-a.c[1]*b.c[0]); }
static void veq(plc_vector a,plc_vector b,const char *m){ int k; for(k=0;k<3;k++) NEAR(a.c[k],b.c[k],1e-9,m); }
void p26_lin(void){ plc_vector A=sv("a"),B=sv("b"); double s=sym_real("s"),t=sym_real("t"); int k; plc_vector x; x=plc_vect_sum(A,B); for(k=0;k<3;k++) CHECK(x.c[k]==A.c[k]+B.c[k],"sum"); x=plc_vect_diff(A,B); for(k=0;k<3;k++) CHECK(x.c[k]==A.c[k]-B.c[k],"difference"); x=plc_scale_vect(s,A); for(k=0;k<3;k++) CHECK(x.c[k]==s*A.c[k],"scalar multiple"); x=plc_vlincomb(s,A,t,B); for(k=0;k<3;k++) CHECK(x.c[k]==s*A.c[k]+t*B.c[k],"linear combination"); x=plc_vmadd(A,s,B); for(k=0;k<3;k++) CHECK(x.c[k]==A.c[k]+s*B.c[k],"A + sB"); x=plc_vweighted(s,A,B); for(k=0;k<3;k++) CHECK(x.c[k]==(1-s)*A.c[k]+s*B.c[k],"(1-s)A + sB"); x=plc_build_vect(s,t,A.c[0]); CHECK(x.c[0]==s&&x.c[1]==t&&x.c[2]==A.c[0],"vector from coordinates"); sym_reach("end"); }
void p26_mult(void){ plc_vector A=sv("a"),B=sv("b"),x=plc_cross_prod(A,B),y=plc_component_mult(A,B); int k; for(k=0;k<3;k++) CHECK(y.c[k]==A.c[k]*B.c[k],"componentwise product"); plc_vector c=crs(A,B); for(k=0;k<3;k++) CHECK(x.c[k]==c.c[k],"cross product"); CHECK(plc_dot_prod(A,B)==dot(A,B),"dot product"); sym_reach("end"); }
void p26_div(void){ int n=sym_arg("nul",0),k,z=0; plc_vector A=svb("a"),B; bool ok=2; for(k=0;k<3;k++){ int c=sym_choice("zero",0,1); z|=c; B.c[k]=0; if(!c){ B.c[k]=sym_real("b"); sym_assume(B.c[k]>=1e-3||B.c[k]<=-1e-3); } } if(n&&z){ sym_expect_exit(1); plc_component_div(A,B,NULL); CHECK(0,"division by zero is refused"); } plc_vector x=plc_component_div(A,B,n?NULL:&ok); if(z) CHECK(!ok,"division by zero is reported"); else { if(!n) CHECK(ok,"division works"); for(k=0;k<3;k++) NEAR(x.c[k]*B.c[k],A.c[k],1e-6,"quotient"); } sym_reach("end"); }
void p26_eq(void){ plc_vector A=sv("a"),B=sv("b"); int e=(A.c[0]==B.c[0])&(A.c[1]==B.c[1])&(A.c[2]==B.c[2]); bool r=plc_vecteq(A,B); double far=0; int k; for(k=0;k<3;k++){ double d=A.c[k]-B.c[k]; d=d<0?-d:d; far=d>far?d:far; } if(e) CHECK(r,"equal vectors are equal"); if(far>1e-3) CHECK(!r,"different vectors are not equal"); sym_reach("end"); }
void p26_norm(void){ plc_vector A=sv("a"),B=sv("b"),D=V3(A.c[0]-B.c[0],A.c[1]-B.c[1],A.c[2]-B.c[2]); double n=plc_norm(A),d=plc_distance(A,B); CHECK(n>=0&&d>=0,"norms are nonnegative"); NEAR(n*n,dot(A,A),1e-9,"norm"); NEAR(d*d,dot(D,D),1e-9,"distance"); NEAR(plc_sq_dist(A,B),dot(D,D),1e-9,"squared distance"); sym_reach("end"); }
void p26_normalize(void){ plc_vector A=sv("a"); sym_assume(dot(A,A)>=1e-20); bool ok=0; plc_vector u=plc_normalize_vect(A,&ok); CHECK(ok,"nonzero vectors normalise"); NEAR(dot(u,u),1,1e-9,"unit length"); double n=plc_norm(A); int k; for(k=0;k<3;k++) NEAR(u.c[k]*n,A.c[k],1e-9,"same direction"); sym_reach("end"); }
void p26_normzero(void){ bool ok=1; if(sym_arg("nul",0)){ sym_expect_exit(1); plc_normalize_vect(V3(0,0,0),NULL); CHECK(0,"normalising the zero vector is refused"); } plc_normalize_vect(V3(0,0,0),&ok); CHECK(!ok,"normalising the zero vector is reported"); sym_reach("end"); }
void p26_angle(void){ plc_vector A=svb("a"),B=dirv(); sym_assume(dot(A,A)>=1e-6); bool ok=0; double th=sym_arg("sw",0)?plc_angle(B,A,&ok):plc_angle(A,B,&ok); CHECK(ok,"nonzero vectors have an angle"); CHECK(th>=0&&th<=3.14159265358980,"angle in [0,pi]"); double nn=sqrt(dot(A,A)*dot(B,B)); NEAR(cos(th)*nn,dot(A,B),1e-6,"cosine of the angle"); sym_reach("end"); }
void p26_angle0(void){ bool ok=1; plc_vector A=sv("a"); plc_angle(A,V3(0,0,0),&ok); CHECK(!ok,"no angle with the zero vector"); sym_reach("end"); }
void p26_adist(void){ static const double PH[5]={0,0.5,2,-3,7}; double a=sym_real("theta"),b=PH[sym_arg("p",0)],d=sym_arg("sw",0)?plc_angle_dist(b,a):plc_angle_dist(a,b); CHECK(d>=0&&d<=3.14159265358980,"circular distance in [0,pi]"); NEAR(cos(d),cos(a)*cos(b)+sin(a)*sin(b),1e-9,"distance on the circle"); sym_reach("end"); }
void p26_circ(void){ plc_vector A=svb("a"),B=svb("b"),C=svb("c"); A.c[2]=B.c[2]=C.c[2]=0; double ar=(B.c[0]-A.c[0])*(C.c[1]-A.c[1])-(B.c[1]-A.c[1])*(C.c[0]-A.c[0]); sym_assume(ar>=1e-3||ar<=-1e-3); bool ok=0; double r=-1; plc_vector c=plc_circumcenter(A,B,C,&r,&ok); CHECK(ok,"three points off a line have a circumcentre"); CHECK(r>=0,"radius"); 
  /* |c-A|=|c-B|=|c-C|=r, in polynomial form with the denominator cleared */
  plc_vector d[3]; int i; for(i=0;i<3;i++){ plc_vector P=i==0?A:i==1?B:C; d[i]=V3(c.c[0]-P.c[0],c.c[1]-P.c[1],0); NEAR(dot(d[i],d[i])*ar*ar,r*r*ar*ar,1e-2,"equidistant from the three points"); } CHECK(c.c[2]==0,"in the plane"); sym_reach("end"); }
void p26_circbad(void){ int k=sym_arg("k",0); plc_vector A=svb("a"),B=svb("b"),C; if(k<2){ A.c[2]=B.c[2]=0; } double t=sym_real("t"); C=k==0?V3(A.c[0]+t*(B.c[0]-A.c[0]),A.c[1]+t*(B.c[1]-A.c[1]),0):k==1?A:V3(1,7,0); if(k==2) sym_assume(A.c[2]>=0.01||B.c[2]<=-0.01); bool ok=1; double r; plc_circumcenter(A,B,C,&r,&ok); CHECK(!ok,"collinear or non-planar points are reported"); sym_reach("end"); }
static const double TB[4][6]={{1,0,0, 0,1,0},{2,1,0, -1,1,3},{0,0,-2, 0,5,0},{1,1,1, 3,-1,2}};
void p26_normal(void){ const double *t=TB[sym_arg("d",0)]; plc_vector A=svb("a"); double s=sym_real("s"); sym_assume(s>=0.01&&s<=100); plc_vector u=V3(t[0]*s,t[1]*s,t[2]*s),v=V3(t[3],t[4],t[5]); bool ok=0; plc_vector n=plc_normal(A,V3(A.c[0]+u.c[0],A.c[1]+u.c[1],A.c[2]+u.c[2]),V3(A.c[0]+v.c[0],A.c[1]+v.c[1],A.c[2]+v.c[2]),&ok); CHECK(ok,"triangle has a normal"); NEAR(dot(n,n),1,1e-6,"unit normal"); NEAR(dot(n,u),0,1e-6,"orthogonal to the first side"); NEAR(dot(n,v),0,1e-6,"orthogonal to the second side"); CHECK(dot(n,crs(u,v))>0,"right-handed"); 
  ok=1; double q=sym_real("q"); plc_normal(A,V3(A.c[0]+u.c[0],A.c[1]+u.c[1],A.c[2]+u.c[2]),V3(A.c[0]+q*u.c[0],A.c[1]+q*u.c[1],A.c[2]+q*u.c[2]),&ok); CHECK(!ok,"degenerate triangle is reported"); sym_reach("end"); }
/* dihedral angle along AC: in coordinates with AC along an axis, B in a half plane at angle 0, D at angle t (right-handed about AC): angle = t measured so that the flat tetrahedron (D opposite to B) gives pi */
void p26_dihedral(void){ int o=sym_arg("o",0),k,nul=sym_arg("nul",0); double h=sym_arg("h",1),r=sym_arg("h",1)==1?0.5:3,b=sym_real("b"),x=sym_real("x"),y=sym_real("y"),d=sym_real("d"); sym_assume(h>=0.1&&h<=50&&r>=0.1&&r<=50&&b<=50&&b>=-50&&d<=50&&d>=-50&&x<=50&&x>=-50&&y<=50&&y>=-50); double q=x*x+y*y; sym_assume(q>=0.01); plc_vector P[4]={V3(0,0,0),V3(r,0,b),V3(0,0,h),V3(x,y,d)},T=svb("t"); for(k=0;k<4;k++){ plc_vector p=P[k]; P[k]=o==0?p:o==1?V3(p.c[1],p.c[2],p.c[0]):V3(p.c[2],p.c[0],p.c[1]); if(o==2) P[k]=V3(P[k].c[0]+T.c[0],P[k].c[1]+T.c[1],P[k].c[2]+T.c[2]); }
  bool ok=0; double th=plc_dihedral_angle(P[0],P[1],P[2],P[3],nul?NULL:&ok); if(!nul) CHECK(ok,"nondegenerate tetrahedron has a dihedral angle"); CHECK(th>=-1e-9&&th<=6.2831853071800,"angle in [0,2pi]"); double rho=sqrt(q); NEAR(cos(th)*rho,x,1e-6,"cosine of the dihedral angle"); double s=sin(th)*rho; NEAR(s,-y,1e-6,"sense of the dihedral angle"); sym_reach("end"); }
void p26_dihbad(void){ int k=sym_arg("k",0); bool ok=1; plc_vector A=svb("a"),B=svb("b"),C=svb("c"),D=svb("d"); if(k==0) C=A; if(k==1) B=A; if(k==2) D=C; double th=plc_dihedral_angle(A,B,C,D,sym_arg("nul",0)?NULL:&ok); if(!sym_arg("nul",0)) CHECK(!ok,"degenerate tetrahedron is reported"); CHECK(th==0,"degenerate tetrahedron gives 0"); sym_reach("end"); }
static const double NP[4][9]={{1,0,0,0,1,0,0,0,1},{2,0,0,0,0,-3,0,1,0},{1,1,0,0,3,4,1,0,-1},{1,2,2,2,1,-2,2,-2,1}};
void p26_planes(void){ const double *n=NP[sym_arg("d",0)]; plc_vector N[3],P[3]; int i; for(i=0;i<3;i++){ N[i]=V3(n[3*i],n[3*i+1],n[3*i+2]); P[i]=svb("p"); } bool ok=0; plc_vector X=plc_3plane_intersection(N[0],P[0],N[1],P[1],N[2],P[2],&ok); CHECK(ok,"three transverse planes meet"); for(i=0;i<3;i++) NEAR(dot(N[i],X),dot(N[i],P[i]),1e-6,"intersection lies on every plane"); sym_reach("end"); }
void p26_planesbad(void){ int k=sym_arg("k",0); plc_vector N[3]={V3(1,0,0),V3(0,2,0),V3(0,0,1)},P[3]; int i; for(i=0;i<3;i++) P[i]=svb("p"); if(k==0) N[2]=V3(1,0,0); if(k==1) N[1]=V3(0,0,0); if(k==2){ double a=sym_real("a"); sym_assume(a>=0.1&&a<=10); N[2]=V3(a,2*a,0); } bool ok=1; plc_3plane_intersection(N[0],P[0],N[1],P[1],N[2],P[2],&ok); CHECK(!ok,"planes without a single common point are reported"); sym_reach("end"); }
/* inradius: the incentre has the same distance from all faces: r * (total area) = 3 * volume */
void p26_inrad(void){ const double *t=NP[sym_arg("d",0)]; plc_vector D=svb("d"); double s=1; if(sym_arg("d",0)!=2){ s=sym_real("s"); sym_assume(s>=0.1&&s<=10); } plc_vector E[3]; int i; for(i=0;i<3;i++) E[i]=V3(D.c[0]+t[3*i]*(i?1:s),D.c[1]+t[3*i+1]*(i?1:s),D.c[2]+t[3*i+2]*(i?1:s)); double r=plc_tetrahedron_inradius(E[0],E[1],E[2],D); plc_vector a=V3(t[0]*s,t[1]*s,t[2]*s),b=V3(t[3],t[4],t[5]),c=V3(t[6],t[7],t[8]),x=crs(b,c),y=crs(c,a),z=crs(a,b),w=V3(x.c[0]+y.c[0]+z.c[0],x.c[1]+y.c[1]+z.c[1],x.c[2]+y.c[2]+z.c[2]); double v=dot(a,x); v=v<0?-v:v; double S=sqrt(dot(x,x))+sqrt(dot(y,y))+sqrt(dot(z,z))+sqrt(dot(w,w)); NEAR(r*S,v,1e-6,"inradius"); sym_reach("end"); }
/* rotation: Rodrigues form */
static plc_vector rot(plc_vector v,plc_vector ax,double s,double c){ double n=sqrt(dot(ax,ax)),d; plc_vector u=V3(ax.c[0]/n,ax.c[1]/n,ax.c[2]/n),x=crs(u,v); d=dot(u,v)*(1-c); return V3(v.c[0]*c+x.c[0]*s+u.c[0]*d,v.c[1]*c+x.c[1]*s+u.c[1]*d,v.c[2]*c+x.c[2]*s+u.c[2]*d); }
static const double PE[7][2][3]={{{1,0,0},{1,-2,0}},{{0,0,1},{0,3,4}},{{0,0,-1},{1,0,1}},{{2,1,2},{2,-1,0}},{{3,-4,0},{3,-4,1}},{{1,-1,0},{1,1,-2}},{{2,0,1},{0,-5,0}}};
/* v = p*axis + q*e with e one of two directions normal to the axis (both signs of q) */
void p26_rotvec(void){ int d=sym_arg("d",0),k; plc_vector ax=dirv(),v; const double *e=PE[d][sym_arg("e",0)]; double p=sym_real("p"),q=sym_real("q"),t=sym_real("t"); sym_assume(p<=50&&p>=-50&&q<=50&&q>=-50&&(q>=0.01||q<=-0.01)); for(k=0;k<3;k++) v.c[k]=p*ax.c[k]+q*e[k]; plc_vector w=plc_rotate_vect(v,ax,t); veq(w,rot(v,ax,sin(t),cos(t)),"rotation about an axis"); sym_reach("end"); }
void p26_rotax(void){ int k; plc_vector ax=dirv(),v; double p=sym_real("p"); sym_assume(p<=50&&p>=-50); for(k=0;k<3;k++) v.c[k]=p*ax.c[k]; plc_vector w=plc_rotate_vect(v,ax,sym_real("t")); veq(w,v,"points on the axis do not move"); sym_reach("end"); }
void p26_rotzero(void){ plc_vector v=sv("v"),w=plc_rotate_vect(v,V3(0,0,0),sym_real("t")); int k; for(k=0;k<3;k++) CHECK(w.c[k]==v.c[k],"no rotation about the zero vector"); sym_reach("end"); }
void p26_rotmat(void){ plc_vector v=svb("v"),ax=dirv(); double t=sym_real("t"); plc_matrix M; plc_rotation_matrix(ax,t,&M); plc_vector w=plc_matrix_vector_multiply(&M,v); veq(w,rot(v,ax,sin(t),cos(t)),"rotation matrix"); plc_identity_matrix(&M); w=plc_matrix_vector_multiply(&M,v); veq(w,v,"identity"); sym_reach("end"); }
void p26_refl(void){ plc_vector v=svb("v"),ax=dirv(); plc_matrix M; plc_reflection_matrix(ax,&M); plc_vector w=plc_matrix_vector_multiply(&M,v); double q=2*dot(v,ax)/dot(ax,ax); veq(w,V3(v.c[0]-q*ax.c[0],v.c[1]-q*ax.c[1],v.c[2]-q*ax.c[2]),"reflection in the plane normal to the axis"); sym_reach("end"); }
void p26_matvec(void){ plc_vector r[3]; int i,j; for(i=0;i<3;i++) r[i]=sv("m"); plc_vector x=sv("x"); plc_matrix *M=plc_build_matrix(r[0],r[1],r[2]); for(i=0;i<3;i++) for(j=0;j<3;j++) CHECK((*M)[i][j]==r[i].c[j],"matrix from rows"); plc_vector y=plc_matrix_vector_multiply(M,x); for(i=0;i<3;i++) NEAR(y.c[i],dot(r[i],x),1e-9,"matrix times vector"); plc_matrix *C=plc_matrix_copy(M); CHECK(C!=M,"copy is separate"); for(i=0;i<3;i++) for(j=0;j<3;j++) CHECK((*C)[i][j]==r[i].c[j],"matrix copy"); CHECK(plc_matrix_copy(NULL)==NULL,"copy of nothing"); free(M); free(C); sym_reach("end"); }
void p26_matmat(void){ plc_vector r[3],s[3]; int i,j,k,rr=sym_arg("r",0); for(i=0;i<3;i++){ r[i]=sv("a"); s[i]=sv("b"); } plc_matrix *A=plc_build_matrix(r[0],r[1],r[2]),*B=plc_build_matrix(s[0],s[1],s[2]),*C=plc_matrix_matrix_multiply(A,B); for(j=0;j<3;j++){ double q=0; for(k=0;k<3;k++) q+=r[rr].c[k]*s[k].c[j]; NEAR((*C)[rr][j],q,1e-9,"matrix product"); } free(A); free(B); free(C); sym_reach("end"); }
/* linear systems: permuted lower/upper triangular with arbitrary off-diagonal entries, arbitrary right-hand side */
static const int PM[6][3]={{0,1,2},{1,0,2},{0,2,1},{2,1,0},{1,2,0},{2,0,1}};
static void solve(int lower){ const int *p=PM[sym_arg("p",0)]; double e[3]; int i,j; for(i=0;i<3;i++){ e[i]=sym_real("e"); sym_assume(e[i]<=1&&e[i]>=-1); } double m[3][3]={{2,e[0],e[1]},{0,3,e[2]},{0,0,4}}; plc_vector R[3]; for(i=0;i<3;i++) for(j=0;j<3;j++) R[p[i]].c[j]=lower?m[j][i]:m[i][j]; plc_matrix *A=plc_build_matrix(R[0],R[1],R[2]); int ix[3]; double d=0; bool ok=0; plc_matrix *LU=lu_decmp(A,ix,&d,&ok); CHECK(LU!=NULL,"invertible matrix factors"); CHECK(ok,"success is reported"); CHECK(d==1||d==-1,"parity"); CHECK(ix[0]>=0&&ix[0]<3&&ix[1]>=0&&ix[1]<3&&ix[2]>=0&&ix[2]<3&&ix[0]!=ix[1]&&ix[1]!=ix[2]&&ix[0]!=ix[2],"row permutation"); int odd=(ix[0]>ix[1])^(ix[0]>ix[2])^(ix[1]>ix[2]); CHECK((d<0)==odd,"parity of the row permutation"); plc_vector b=svb("b"),x=solve_linear(LU,ix,b),y; for(i=0;i<3;i++) NEAR(dot(R[i],x),b.c[i],1e-9,"solution of the linear system"); for(i=0;i<3;i++) for(j=0;j<3;j++) CHECK((*A)[i][j]==R[i].c[j],"the matrix is unchanged"); free(LU); free(A); sym_reach("end"); }
void p26_solve(void){ solve(0); }
void p26_solve2(void){ solve(1); }
void p26_singular(void){ plc_vector a=sv("a"); int z=sym_choice("row",0,2),ix[3],i; double d; bool ok=1; plc_vector R[3]; for(i=0;i<3;i++) R[i]=i==z?V3(0,0,0):V3(1,i,2); plc_matrix *A=plc_build_matrix(R[0],R[1],R[2]),*L=lu_decmp(A,ix,&d,&ok); CHECK(!ok&&!L,"a matrix with a zero row is refused"); free(A); sym_reach("end"); }
