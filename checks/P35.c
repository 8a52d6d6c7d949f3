/* P35: splines */
//BOUND curves of one or two components with 2..4 vertices each, open and closed, one coordinate of one vertex arbitrary (within +-0.4 of a fixed position); sampling at an arbitrary parameter from one length before the start to one length past the end on fixed curves; resampling to 2..7 vertices; constraints on every run of vertices of the component
//BOUND outside: rounding (real arithmetic), components of one vertex, repeated vertices
//JOB p35_interp k=0..5 q=0..2 qtime=2000 btime=200 forksel=1
//JOB p35_smooth k=1,3 q=0..1 p=0..3 qtime=2000 btime=200 forksel=1
//JOB p35_smooth k=2,4 q=0..1 p=0..3 tier=thorough qtime=2000 btime=200 forksel=1
//JOB p35_smooth k=2,4 q=2 p=0..3 qtime=2000 btime=200 forksel=1
//JOB p35_s k=0..5 lo=-1 forksel=1
//JOB p35_s k=0..5 lo=-4,1 forksel=1
//JOB p35_from k=0..5 n=2..4,7 q=0 qtime=2000 btime=200 forksel=1
//JOB p35_from k=0..5 n=3,5,6 q=1..2 tier=thorough qtime=2000 btime=200 forksel=1
//JOB p35_cst k=0..5 n=2..5,9
#include "curve.h"
static const double SH[6][4][3]={{{0,0,0},{2,1,0.5}},{{0,0,0},{2,0,0.5},{2.5,1.5,0}},{{0,0,0},{1.5,0,0.5},{1.75,2,0},{0,2,1}},{{0,0,0},{2,0,0},{0.5,1.5,1}},{{0,0,0},{2,0.25,0},{2,1.5,0.5},{-0.25,1.5,0}},{{1,0,0},{2.5,0,1},{1,1.5,0}}};
static const int NV[6]={2,3,4,3,4,3},OP[6]={1,1,1,0,0,1};
static int cp;  /* the component looked at */
static double clen(const rcomp *p,int i){ const double *a=p->v[i],*b=p->v[(i+1)%p->nv]; return sqrt((a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2])); }
static void mk(rcurve *r,int k,double t,int q,int col){ int i,j,c=0; memset(r,0,sizeof *r); if(k==5){ r->p[0].nv=3; for(i=0;i<3;i++) for(j=0;j<3;j++) r->p[0].v[i][j]=SH[3][i][j]+4; if(col){ r->p[0].cc=1; for(j=0;j<4;j++) r->p[0].c[0][j]=0.25*j; } c=1; } r->nc=c+1; cp=c; rcomp *p=&r->p[c]; p->nv=NV[k]; p->open=OP[k]; for(i=0;i<p->nv;i++) for(j=0;j<3;j++) p->v[i][j]=SH[k][i][j]; p->v[1][q]+=t; if(col==1){ p->cc=p->nv; for(i=0;i<p->nv;i++) for(j=0;j<4;j++) p->c[i][j]=(i*i+2*j+1)/16.0; } if(col==2){ p->cc=1; for(j=0;j<4;j++) p->c[0][j]=(j+1)/8.0; } }
static double sy(void){ double t=sym_real("t"); sym_assume(t>=-0.4&&t<=0.4); return t; }
static void shape(plc_spline *S,const rcurve *r){ int c,i,j; CHECK(S->nc==r->nc&&S->cst==NULL,"components of the spline"); for(c=0;c<r->nc;c++){ const rcomp *p=&r->p[c]; CHECK(S->cp[c].open==p->open&&S->cp[c].ns==p->nv&&S->cp[c].cc==p->cc,"strands of the spline"); for(i=0;i<p->cc;i++){ plc_color *x=&S->cp[c].clr[i]; CHECK(x->r==p->c[i][0]&&x->g==p->c[i][1]&&x->b==p->c[i][2]&&x->alpha==p->c[i][3],"colors of the spline"); } double s=0; for(i=0;i<(p->open?p->nv:p->nv+1);i++){ NEAR(S->cp[c].svals[i],s,1e-6,"parameter of a sample is the length up to it"); if(i<p->nv) s+=clen(p,i); } } (void)j; }
static void vnear(plc_vector a,const double *b,double tol,const char *m){ int k; for(k=0;k<3;k++) NEAR(a.c[k],b[k],tol,m); }
/* the spline passes through the vertices; ends of open strands leave along their edges */
void p35_interp(void){ int k=sym_arg("k",0),i,j; rcurve r; mk(&r,k,sy(),sym_arg("q",0),k%3); plCurve *L=rc_make(&r); bool ok=false; plc_spline *S=plc_convert_to_spline(L,&ok); CHECK(ok,"conversion succeeds"); rc_check(L,&r,0); shape(S,&r); rcomp *p=&r.p[cp]; double s=0; for(i=0;i<(p->open?p->nv:p->nv+1);i++){ vnear(plc_sample_spline(S,cp,s),p->v[i%p->nv],1e-3,"spline passes through the vertices"); if(i<p->nv) s+=clen(p,i); }
  if(p->open){ double a[3],l=clen(p,0),tot=0; for(j=0;j<3;j++) a[j]=(p->v[1][j]-p->v[0][j])/l; vnear(plc_spline_tangent(S,cp,0),a,1e-3,"starts along the first edge"); l=clen(p,p->nv-2); for(j=0;j<3;j++) a[j]=(p->v[p->nv-1][j]-p->v[p->nv-2][j])/l; for(i=0;i<p->nv-1;i++) tot+=clen(p,i); vnear(plc_spline_tangent(S,cp,tot),a,1e-3,"ends along the last edge"); } plc_spline_free(S); plc_free(L); sym_reach("end"); }
/* cubic through four values at 1/5..4/5 of a piece: value, first and second derivative (per unit of the fraction) at f */
static void cubic(const double *y,double f,double *v,double *d,double *d2){ static const double X[4]={0.2,0.4,0.6,0.8}; int i,a,b,m; *v=*d=*d2=0; for(i=0;i<4;i++){ double den=1,o[3]; for(a=0,m=0;a<4;a++) if(a!=i){ den*=X[i]-X[a]; o[m++]=f-X[a]; } *v+=y[i]*(o[0]*o[1]*o[2]/den); *d+=y[i]*((o[0]*o[1]+o[0]*o[2]+o[1]*o[2])/den); *d2+=y[i]*(2*(o[0]+o[1]+o[2])/den); } (void)b; }
static void piece(plc_spline *S,double s0,double h,double f,int c,double *v,double *d,double *d2){ double y[4]; int i; for(i=0;i<4;i++) y[i]=plc_sample_spline(S,cp,s0+h*(i+1)/5).c[c]; cubic(y,f,v,d,d2); *d/=h; *d2/=h*h; }
/* p: the sample looked at; position, tangent and (away from the ends) second derivative agree from both sides, and the tangent is the derivative */
void p35_smooth(void){ int k=sym_arg("k",1),pp=sym_arg("p",1),c,i; rcurve r; mk(&r,k,sy(),sym_arg("q",0),0); rcomp *p=&r.p[cp]; if(pp>=(p->open?p->nv-1:p->nv)){ sym_reach("end"); return; } plCurve *L=rc_make(&r); plc_spline *S=plc_convert_to_spline(L,NULL); double s0=0,h,h1,tot=0; for(i=0;i<pp;i++) s0+=clen(p,i); h=clen(p,pp); for(i=0;i<p->nv;i++) tot+=clen(p,i); 
  for(c=0;c<3;c++){ double v,d,d2,V,D,D2; piece(S,s0,h,0,c,&v,&d,&d2); NEAR(v,p->v[pp][c],1e-3,"a piece starts at its vertex"); if(!p->open||pp>0){ int pr=(pp+p->nv-1)%p->nv; h1=clen(p,pr); piece(S,pp?s0-h1:tot-h1,h1,1,c,&V,&D,&D2); NEAR(V,p->v[pp][c],1e-3,"a piece ends at its vertex"); NEAR(D,d,1e-3,"tangents from both sides agree"); if(pp>0) NEAR(D2,d2,2e-3,"second derivatives from both sides agree"); }
    piece(S,s0,h,0.375,c,&v,&d,&d2); NEAR(plc_spline_tangent(S,cp,s0+h*0.375).c[c],d,1e-3,"tangent is the derivative of the position"); } plc_spline_free(S); plc_free(L); sym_reach("end"); }
/* arbitrary parameter */
void p35_s(void){ int k=sym_arg("k",0),i,c; rcurve r; mk(&r,k,0.125,1,0); rcomp *p=&r.p[cp]; plCurve *L=rc_make(&r); plc_spline *S=plc_convert_to_spline(L,NULL); double len=0,s=sym_real("s"); for(i=0;i<(p->open?p->nv-1:p->nv);i++) len+=clen(p,i); int lo=sym_arg("lo",-1); sym_assume(s>=lo*len&&s<=(lo+3)*len); plc_vector x=plc_sample_spline(S,cp,s),t=plc_spline_tangent(S,cp,s); double u=s; if(p->open){ if(u<0) u=0; if(u>len) u=len; } else { for(i=0;i<4;i++) if(u<0) u+=len; for(i=0;i<4;i++) if(u>=len) u-=len; }
  double s0=0,h; int n=p->open?p->nv-1:p->nv; for(i=0;i<n-1&&u>s0+clen(p,i);i++) s0+=clen(p,i); h=clen(p,i); for(c=0;c<3;c++){ double v,d,d2; piece(S,s0,h,(u-s0)/h,c,&v,&d,&d2); NEAR(x.c[c],v,1e-3,"one cubic per edge, closed strands wrap around"); NEAR(t.c[c],d,1e-3,"tangent at the same point"); } plc_spline_free(S); plc_free(L); sym_reach("end"); }
/* resampling */
void p35_from(void){ int k=sym_arg("k",0),n=sym_arg("n",3),i,j; if(!OP[k]&&n<3) n=8; rcurve r; mk(&r,k,sy(),sym_arg("q",0),1+k%2); rcomp *p=&r.p[cp]; plCurve *L=rc_make(&r); plc_spline *S=plc_convert_to_spline(L,NULL); int nv[2]={n,n}; if(k==5) nv[0]=5; plCurve *R=plc_convert_from_spline(S,nv); shape(S,&r); CHECK(R->nc==r.nc&&R->cst==NULL,"components"); for(i=0;i<r.nc;i++) CHECK(R->cp[i].nv==nv[i]&&R->cp[i].open==r.p[i].open&&R->cp[i].cc==(r.p[i].cc<2?r.p[i].cc:nv[i]),"requested numbers of vertices");
  double len=0; int m=p->open?p->nv-1:p->nv; for(i=0;i<m;i++) len+=clen(p,i); for(i=0;i<n;i++){ double s=len*i/(p->open?n-1:n),s0=0; plc_vector x=plc_sample_spline(S,cp,s); double w[3]={x.c[0],x.c[1],x.c[2]}; vnear(R->cp[cp].vt[i],w,1e-3,"vertices evenly spaced along the spline"); if(p->cc>1){ for(j=0;j<m-1&&s>s0+clen(p,j);j++) s0+=clen(p,j); double b=(s-s0)/clen(p,j); int e=(j+1)%p->nv; plc_color *q=&R->cp[cp].clr[i]; NEAR(q->r,(1-b)*p->c[j][0]+b*p->c[e][0],1e-3,"colors interpolated"); NEAR(q->alpha,(1-b)*p->c[j][3]+b*p->c[e][3],1e-3,"colors interpolated"); NEAR(q->g,(1-b)*p->c[j][1]+b*p->c[e][1],1e-3,"colors interpolated"); NEAR(q->b,(1-b)*p->c[j][2]+b*p->c[e][2],1e-3,"colors interpolated"); } else { plc_color *q=&R->cp[cp].clr[0]; CHECK(q->r==p->c[0][0]&&q->g==p->c[0][1]&&q->b==p->c[0][2]&&q->alpha==p->c[0][3],"single color kept"); } }
  if(!p->open) for(j=0;j<3;j++) CHECK(R->cp[cp].vt[-1].c[j]==R->cp[cp].vt[n-1].c[j]&&R->cp[cp].vt[n].c[j]==R->cp[cp].vt[0].c[j],"wrapped vertices"); plc_free(R); plc_spline_free(S); plc_free(L); sym_reach("end"); }
/* constraints: one run of vertices */
void p35_cst(void){ int k=sym_arg("k",0),n=sym_arg("n",3),i; if(!OP[k]&&n<3) n=8; rcurve r; mk(&r,k,0.125,0,0); rcomp *p=&r.p[cp]; plCurve *L=rc_make(&r); int v=sym_choice("vert",0,p->nv-1),m=sym_choice("num",1,p->nv-v),kd=sym_choice("kind",0,2); plc_constraint *c=calloc(1,sizeof *c); c->kind=kd==0?fixed:kd==1?line:plane; if(kd==0) m=1; c->cmp=cp; c->vert=v; c->num_verts=m; for(i=0;i<3;i++){ c->vect[0].c[i]=i+1; c->vect[1].c[i]=2*i-1; } L->cst=c; plc_spline *S=plc_convert_to_spline(L,NULL); CHECK(S->cst&&!S->cst->next&&S->cst!=c&&S->cst->vert==v&&S->cst->num_verts==m&&S->cst->kind==c->kind&&S->cst->cmp==cp,"constraint copied to the spline"); int nv[2]={n,n}; if(k==5) nv[0]=5; plCurve *R=plc_convert_from_spline(S,nv); plc_constraint *d=R->cst; CHECK(d&&!d->next&&d->kind==c->kind&&d->cmp==cp,"constraint kept"); for(i=0;i<3;i++) CHECK(d->vect[0].c[i]==i+1&&d->vect[1].c[i]==2*i-1,"constraint kept");
  CHECK(d->vert>=0&&d->num_verts>=1&&d->vert+d->num_verts<=n,"constraint within the component"); if(v==0) CHECK(d->vert==0,"a run from the first vertex starts at the first vertex"); if(v==p->nv-1) CHECK(d->vert==n-1,"the last vertex stays the last vertex"); if(m==1) CHECK(d->num_verts==1,"one vertex stays one vertex"); if(m==p->nv&&p->nv>1) CHECK(d->vert==0&&d->num_verts==n,"all vertices stay all vertices"); if(m>1&&v+m==p->nv) CHECK(d->vert+d->num_verts==n,"a run to the last vertex ends at the last vertex"); CHECK(S->cst->vert==v&&S->cst->num_verts==m,"spline unchanged"); plc_free(R); plc_spline_free(S); plc_free(L); sym_reach("end"); }
