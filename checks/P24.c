/* P24: writing a curve and reading it back */
//BOUND curves of up to 3 components with 1..4 vertices, open or closed, 0, 1 or one colour per vertex, arbitrary real coordinates and colours, up to two constrained runs of any kind; also n = 1..45 single-vertex constraints; also numbers of extreme length and magnitude
//STUB the text of a symbolic real is an opaque 23-character numeral that reads back as the same real; %.16g/%g rounding is exercised with concrete numbers
//JOB p24_shape nv=1..4 open=0,1 cc=0..2
//JOB p24_two a=1..3 b=1..4 oa=0,1
//JOB p24_cst kind=1..3 nv=2..4
//JOB p24_many n=1..12,19..22,29..32,39..42
//JOB p24_text v=0..3 w=0..3
//JOB p24_ugly set=0..5 kind=0..3
#include "curve.h"
static void rt(plCurve *L,rcurve *r,double tol){ FILE *f=tmpfile(); plc_write(f,L); rewind(f); int err=77; char s[256]; plCurve *C=plc_read(f,&err,s,256); CHECK(C!=NULL,"a written curve is read back"); CHECK(err==0,"no error"); rc_check(C,r,tol); rc_check_cst(C,r,tol); rc_check(L,r,0); fclose(f); plc_free(C); }
static void sym_csts(plCurve *L,rcurve *r,int n){ int i,k; for(i=0;i<n;i++){ double d[6]; for(k=0;k<6;k++) d[k]=sym_real("cst"); int kd=sym_choice("kind",1,3),c=sym_choice("cmp",0,r->nc-1),v=sym_choice("v",0,r->p[c].nv-1),m=kd==1?1:sym_choice("m",1,r->p[c].nv-v); if(kd==1) d[3]=d[4]=d[5]=0; if(kd==3) d[4]=d[5]=0; rc_cst(L,r,c,v,m,kd,d); } }
void p24_shape(void){ rcurve r; memset(&r,0,sizeof r); r.nc=1; int nv=sym_arg("nv",3),c=sym_arg("cc",0); rc_sym(&r.p[0],nv,sym_arg("open",0),c==2?nv:c); plCurve *L=rc_make(&r); rt(L,&r,1e-9); plc_free(L); sym_reach("end"); }
void p24_two(void){ rcurve r; memset(&r,0,sizeof r); int a=sym_arg("a",3),b=sym_arg("b",2),i; r.nc=2+sym_choice("third",0,1); int ca=sym_choice("ca",0,2),cb=sym_choice("cb",0,2); rc_sym(&r.p[0],a,sym_arg("oa",1),ca==2?a:ca); rc_sym(&r.p[1],b,sym_choice("ob",0,1),cb==2?b:cb); if(r.nc==3) rc_sym(&r.p[2],2,1,1); plCurve *L=rc_make(&r); rt(L,&r,1e-9); plc_free(L); sym_reach("end"); }
void p24_cst(void){ rcurve r; memset(&r,0,sizeof r); int nv=sym_arg("nv",3),kd=sym_arg("kind",1),k; r.nc=2; rc_sym(&r.p[0],nv,0,0); rc_sym(&r.p[1],2,1,1); plCurve *L=rc_make(&r); double d[6]; for(k=0;k<6;k++) d[k]=sym_real("cst"); if(kd==1) d[3]=d[4]=d[5]=0; if(kd==3) d[4]=d[5]=0; int v=sym_choice("v0",0,nv-1); rc_cst(L,&r,0,v,kd==1?1:sym_choice("m0",1,nv-v),kd,d); sym_csts(L,&r,1); rt(L,&r,1e-9); plc_free(L); sym_reach("end"); }
void p24_many(void){ int n=sym_arg("n",3),i,j,k; int nv[1]={46},cc[1]={0}; bool op[1]={true}; plCurve *L=plc_new(1,nv,op,cc); for(i=0;i<46;i++) L->cp[0].vt[i]=V3(i,2*i,0.5*i*i); plc_fix_wrap(L); for(i=0;i<n;i++) plc_set_fixed(L,0,i,V3(i,-i,3)); FILE *f=tmpfile(); plc_write(f,L); rewind(f); int err=77; char s[256]; plCurve *C=plc_read(f,&err,s,256); CHECK(C!=NULL&&err==0,"a written curve is read back"); CHECK(C->nc==1&&C->cp[0].nv==46,"shape"); for(i=0;i<46;i++){ plc_constraint *c=0; int is=plc_is_constrained(C,0,i,&c); CHECK(is==(i<n),"exactly the constrained vertices are constrained"); if(is) CHECK(c->kind==fixed&&c->vect[0].c[0]==i&&c->vect[0].c[1]==-i&&c->vect[0].c[2]==3,"constraint data"); CHECK(C->cp[0].vt[i].c[0]==i&&C->cp[0].vt[i].c[1]==2*i&&C->cp[0].vt[i].c[2]==0.5*i*i,"vertices"); } fclose(f); plc_free(C); plc_free(L); sym_reach("end"); }
static const double U[6][3]={{-1.2345678901234567e-100,-1.2345678901234567e-101,-9.8765432109876543e+200},{1.0/3,2.0/3,-1.0/7},{123456.789012,-0.000123456789,98765432.125},{1e300,-1e-300,0},{-1.1111111111111111e-308,-1.7777777777777777e+308,-1.2222222222222222e-300},{1234567,7654321,-1000001}};
static void rel(double a,double b,const char *m){ double d=a-b; if(d<0) d=-d; double s=b<0?-b:b; CHECK(d<=1e-14*s,m); }
void p24_ugly(void){ int set=sym_arg("set",0),kd=sym_arg("kind",0),i,k; int nv[1]={3},cc[1]={3}; bool op[1]={false}; plCurve *L=plc_new(1,nv,op,cc); const double *u=U[set]; for(i=0;i<3;i++){ L->cp[0].vt[i]=V3(u[i],u[(i+1)%3],u[(i+2)%3]); L->cp[0].clr[i]=plc_build_color(u[i],u[0],u[1],u[2]); } plc_fix_wrap(L); for(i=0;i<3&&kd;i++){ if(kd==1) plc_set_fixed(L,0,i,V3(u[i],u[0],u[1])); if(kd==2) plc_constrain_to_line(L,0,i,1,V3(u[i],u[0],u[1]),V3(u[2],u[1],u[0])); if(kd==3) plc_constrain_to_plane(L,0,i,1,V3(u[i],u[0],u[1]),u[2]); }
  FILE *f=tmpfile(); plc_write(f,L); rewind(f); int err=77; char s[256]; plCurve *C=plc_read(f,&err,s,256); CHECK(C!=NULL&&err==0,"a written curve is read back"); CHECK(C->nc==1&&C->cp[0].nv==3&&C->cp[0].cc==3&&!C->cp[0].open,"shape"); for(i=0;i<3;i++){ for(k=0;k<3;k++) rel(C->cp[0].vt[i].c[k],L->cp[0].vt[i].c[k],"coordinates to 14 digits"); rel(C->cp[0].clr[i].r,L->cp[0].clr[i].r,"colours to 14 digits"); rel(C->cp[0].clr[i].alpha,L->cp[0].clr[i].alpha,"colours to 14 digits"); plc_constraint *c=0,*c0=0; int is=plc_is_constrained(C,0,i,&c); plc_is_constrained(L,0,i,&c0); CHECK(is==(kd!=0),"constraints"); if(is){ CHECK(c->kind==c0->kind,"kind"); for(k=0;k<6;k++) rel(c->vect[k/3].c[k%3],c0->vect[k/3].c[k%3],"constraint data to 14 digits"); } } fclose(f); plc_free(C); plc_free(L); sym_reach("end"); }
/* an independently written file, with white space and comments anywhere between the numbers */
static const char SEP[4][12]={" ","\n","\t \n ","# hi 5\n"};
void p24_text(void){ const char *a=SEP[sym_arg("v",0)],*b=SEP[sym_arg("w",0)],*c=SEP[sym_choice("z",0,3)]; char t[900]; int n=snprintf(t,900,"VECT%s2 %s5 %s3 %s-3 %s2%s 0 %s2%s # Vertices\n1 %s2 %s3 %s4 5 %s6 %s7 8 9 %s10 %s11 12 13 %s14 15 %s0.5%s 0.25 1e0 -2 %s3 4%s 5 6 ",b[0]=='#'?" ":b,a,b,c,a,b,c,b,a,b,c,a,b,c,a,b,c,a,b,c,a); n=(int)strlen(t); rcurve r; memset(&r,0,sizeof r); r.nc=2; int i,k,q=1; r.p[0].nv=3; r.p[1].nv=2; r.p[1].open=1; r.p[1].cc=2; for(i=0;i<3;i++) for(k=0;k<3;k++) r.p[0].v[i][k]=q++; for(i=0;i<2;i++) for(k=0;k<3;k++) r.p[1].v[i][k]=q++; static const double cl[8]={0.5,0.25,1,-2,3,4,5,6}; for(i=0;i<8;i++) r.p[1].c[i/4][i%4]=cl[i]; FILE *f=tmpfile(); fwrite(t,1,n,f); rewind(f); int err=77; char s[256]; plCurve *C=plc_read(f,&err,s,256); CHECK(C!=NULL&&err==0,"a valid file is read"); rc_check(C,&r,0); rc_check_cst(C,&r,0); plc_free(C); fclose(f); sym_reach("end"); }
