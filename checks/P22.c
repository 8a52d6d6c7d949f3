/* P22: a curve's components */
//BOUND curves with up to 3 components of 1..5 vertices, open and closed, with 0, 1 or one-per-vertex colours; all coordinates and colours arbitrary reals; every sequence of 2 operations and of 3 that start with dropping, recolouring or copying (thorough: every sequence of 3)erations
//JOB p22_new nv=1..5 open=0,1
//JOB p22_ops first=0..4 k=2
//JOB p22_ops first=1,3,4 k=3
//JOB p22_ops first=0,2 k=3 tier=thorough time=800
//JOB p22_num n0=1..4 n1=1..3
#include "curve.h"
void p22_new(void){ rcurve r; int nv=sym_arg("nv",3),c=sym_choice("cc",0,2),i,k; r.nc=1; rc_sym(&r.p[0],nv,sym_arg("open",0),c==2?nv:c); plCurve *L=rc_make(&r); rc_check(L,&r,0); plc_fix_wrap(L); rc_check(L,&r,0);
  int e[1]; int ne=(r.p[0].open||nv<3)?nv-1:nv; CHECK(plc_num_edges(L)==ne&&plc_edges(L,e)==ne&&e[0]==ne&&plc_edges(L,NULL)==ne,"edge count"); CHECK(plc_num_verts(L)==nv,"vertex count");
  plCurve *C=plc_copy(L); rc_check(C,&r,0); for(i=-1;i<=nv;i++) for(k=0;k<3;k++) L->cp[0].vt[i].c[k]=7; for(i=0;i<r.p[0].cc;i++) L->cp[0].clr[i].r=9; plc_free(L); rc_check(C,&r,0); plc_free(C); plc_free(NULL); sym_reach("end"); }
static void op_add(plCurve *L,rcurve *r){ rcomp p; int at=sym_choice("at",0,r->nc),nv=sym_choice("nv",1,3),c=sym_choice("cc",0,2),i,j; rc_sym(&p,nv,sym_choice("open",0,1),c==2?nv:c); plc_vector v[MV]; plc_color q[MV]; for(i=0;i<nv;i++) v[i]=V3(p.v[i][0],p.v[i][1],p.v[i][2]); for(i=0;i<p.cc;i++) q[i]=plc_build_color(p.c[i][0],p.c[i][1],p.c[i][2],p.c[i][3]); plc_add_component(L,at,nv,p.open,p.cc,v,p.cc?q:NULL); for(i=r->nc;i>at;i--) r->p[i]=r->p[i-1]; r->p[at]=p; r->nc++; }
static void op_drop(plCurve *L,rcurve *r){ if(r->nc<2) return; int at=sym_choice("at",0,r->nc-1),i; plc_drop_component(L,at); for(i=at;i<r->nc-1;i++) r->p[i]=r->p[i+1]; r->nc--; }
static void op_resize(plCurve *L,rcurve *r){ int at=sym_choice("at",0,r->nc-1),i,j; rcomp *p=&r->p[at]; int c=sym_choice("cc",0,2); c=c==2?p->nv:c; int old=p->cc; plc_resize_colorbuf(L,at,c); CHECK(L->cp[at].cc==c,"colour buffer size"); for(i=0;i<c;i++) for(j=0;j<4;j++) if(i>=old){ if(old==1) p->c[i][j]=p->c[0][j]; else { double *d[4]={&L->cp[at].clr[i].r,&L->cp[at].clr[i].g,&L->cp[at].clr[i].b,&L->cp[at].clr[i].alpha}; *d[j]=p->c[i][j]=sym_real("newclr"); } } p->cc=c; }
static void op_set(plCurve *L,rcurve *r){ double d[4]; int i,j,k; for(k=0;k<4;k++) d[k]=sym_real("setclr"); plc_set_color(L,plc_build_color(d[0],d[1],d[2],d[3])); for(i=0;i<r->nc;i++) for(j=0;j<r->p[i].cc;j++) for(k=0;k<4;k++) r->p[i].c[j][k]=d[k]; }
static void op_cst(plCurve *L,rcurve *r){ int at=sym_choice("at",0,r->nc-1),v=sym_choice("v",0,r->p[at].nv-1); double d[6]={1,2,3,4,5,6}; rc_cst(L,r,at,v,1,sym_choice("kind",1,3),d); }
void p22_ops(void){ rcurve r; int k=sym_arg("k",2),i; r.nc=2; rc_sym(&r.p[0],3,0,sym_choice("cc0",0,1)*3); rc_sym(&r.p[1],2,1,1); plCurve *L=rc_make(&r); double d[6]={1,0,0,0,2,0}; if(sym_choice("constrained",0,1)){ rc_cst(L,&r,0,1,2,2,d); rc_cst(L,&r,1,0,1,1,d); } 
  for(i=0;i<k;i++){ int o=i==0?sym_arg("first",0):sym_choice("op",0,4); if(o==0) op_add(L,&r); else if(o==1) op_drop(L,&r); else if(o==2) op_resize(L,&r); else if(o==3) op_set(L,&r); else { plCurve *C=plc_copy(L); plc_free(L); L=C; } }
  rc_check(L,&r,0); rc_check_cst(L,&r,0); plc_free(L); sym_reach("end"); }
void p22_num(void){ int n0=sym_arg("n0",3),n1=sym_arg("n1",2),cp=sym_choice("cp",0,1); rcurve r; r.nc=2; rc_sym(&r.p[0],n0,sym_choice("o0",0,1),0); rc_sym(&r.p[1],n1,sym_choice("o1",0,1),0); plCurve *L=rc_make(&r); int nv=cp?n1:n0,v=sym_range("v",-2*nv-1,3*nv+1),w,op=L->cp[cp].open; w=plc_vertex_num(L,cp,v); int e; if(op) e=v<0?0:v>nv-1?nv-1:v; else e=((v%nv)+nv)%nv; CHECK(w==e+(cp?n0:0),"vertex number with wrap-around (closed) or repetition (open)"); CHECK(w>=0&&w<plc_num_verts(L),"vertex number in range"); CHECK(plc_cp_num(L,w)==cp,"component of a vertex number"); CHECK(plc_vt_num(L,w)==e,"vertex of a vertex number"); plc_free(L); sym_reach("end"); }
