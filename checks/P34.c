/* P34: strut files */
//BOUND two components (4 and 3 vertices, closed and open), 0..2 struts and 0..2 radius records on any vertices with arbitrary positions, lengths, radii and compressions; damaged files: any byte of a file with two struts and two radius records replaced by or preceded by an arbitrary one, cut off anywhere, each integer any of a list of extreme values; the "secondary vertex" of a radius record is not part of the format
//STUB a numeral containing a symbolic character reads as an arbitrary real
//JOB p34_round ns=0..2 nm=0..2
//JOB p34_comment k=0..3
//JOB p34_byte blk=0..19
//JOB p34_ins blk=0..19
//JOB p34_cut blk=0..3
//JOB p34_nums which=0..13
//JOB p34_raw n=0..2
//JOB p34_raw n=3 tier=thorough
//JOB p34_ugly set=0..4
//JOB p34_ends
//JOB p34_nowrite
#include "curve.h"
#include "octrope.h"
static plCurve *link2(void){ int nv[2]={4,3},cc[2]={0,0}; bool op[2]={0,1}; plCurve *L=plc_new(2,nv,op,cc); int c,i; for(c=0;c<2;c++) for(i=0;i<nv[c];i++) L->cp[c].vt[i]=V3(i*(i-2)+5*c,i,c+i%2); plc_fix_wrap(L); return L; }
static double rl(void){ double x=sym_real("x"); sym_assume(x<=1000&&x>=-1000); return x; }
void p34_round(void){ int ns=sym_arg("ns",1),nm=sym_arg("nm",1),i,a=-7,b=-7; octrope_strut st[2],*so=0; octrope_mrloc ml[2],*mo=0; plCurve *L=link2(); memset(st,0,sizeof st); memset(ml,0,sizeof ml); for(i=0;i<ns;i++){ if(i==0){ st[i].component[0]=sym_choice("c0",0,1); st[i].component[1]=sym_choice("c1",0,1); st[i].lead_vert[0]=sym_choice("v0",0,L->cp[st[i].component[0]].nv-1); st[i].lead_vert[1]=sym_choice("v1",0,L->cp[st[i].component[1]].nv-1); } else { st[i].component[1]=1; st[i].lead_vert[0]=3; st[i].lead_vert[1]=2; } st[i].position[0]=rl(); st[i].position[1]=rl(); st[i].length=rl(); st[i].compression=rl(); } for(i=0;i<nm;i++){ if(i==0&&ns!=1){ ml[i].component=sym_choice("c",0,1); ml[i].vert=sym_choice("v",0,L->cp[ml[i].component].nv-1); } else { ml[i].component=0; ml[i].vert=2; } ml[i].mr=rl(); ml[i].compression=rl(); }
  FILE *f=tmpfile(); octrope_error_num=5; octrope_strutfile_write(ns,ns?st:0,nm,nm?ml:0,f); CHECK(octrope_error_num==0,"written without error"); rewind(f); octrope_strutfile_read(L,&a,&so,&b,&mo,f); CHECK(octrope_error_num==0&&octrope_error_str[0]==0,"read without error"); CHECK(a==ns&&b==nm,"numbers of records"); for(i=0;i<ns;i++){ CHECK(so[i].component[0]==st[i].component[0]&&so[i].component[1]==st[i].component[1],"components"); CHECK(so[i].lead_vert[0]==st[i].lead_vert[0]&&so[i].lead_vert[1]==st[i].lead_vert[1],"vertices"); NEAR(so[i].position[0],st[i].position[0],1e-10,"position at the start"); NEAR(so[i].position[1],st[i].position[1],1e-10,"position at the end"); NEAR(so[i].length,st[i].length,1e-10,"length"); NEAR(so[i].compression,st[i].compression,1e-10,"compression"); } for(i=0;i<nm;i++){ CHECK(mo[i].component==ml[i].component&&mo[i].vert==ml[i].vert,"place of the radius"); NEAR(mo[i].mr,ml[i].mr,1e-10,"radius"); NEAR(mo[i].compression,ml[i].compression,1e-10,"compression of the radius"); } free(so); free(mo); fclose(f); plc_free(L); sym_reach("end"); }
static const char T[]="STRUTS \n2 2 \n0 1 3 0 0.5 0 2.25 1\n1 1 2 0 1 1e-3 4 -2.5\n0 2 1.5 0 \n1 1 12 3 \n";
#define LEN ((int)sizeof(T)-1)
static void go(const char *t,int n,int must){ plCurve *L=link2(); FILE *f=tmpfile(); fwrite(t,1,n,f); rewind(f); int a=-7,b=-7,i; octrope_strut *so=0; octrope_mrloc *mo=0; octrope_strutfile_read(L,&a,&so,&b,&mo,f); if(octrope_error_num) CHECK(octrope_error_str[0]!=0,"an error has a message"); else { CHECK(a>=0&&b>=0,"counts"); volatile double x=0; for(i=0;i<a;i++){ int k; for(k=0;k<2;k++){ int c=so[i].component[k],v=so[i].lead_vert[k]; CHECK(c>=0&&c<2,"existing component"); c=sym_concretize(c); CHECK(v>=0&&v<L->cp[c].nv,"existing vertex"); x=so[i].position[k]; } } for(i=0;i<b;i++){ int c=mo[i].component,v=mo[i].vert; CHECK(c>=0&&c<2,"existing component"); c=sym_concretize(c); CHECK(v>=0&&v<L->cp[c].nv,"existing vertex"); x=mo[i].compression; } } if(must==1) CHECK(octrope_error_num==0,"a valid file is read"); if(must==2) CHECK(octrope_error_num!=0,"a file that lacks something is refused"); free(so); free(mo); fclose(f); plc_free(L); sym_reach("end"); }
static int pos(int max){ int per=(max+19)/20,b=sym_arg("blk",0),lo=b*per,hi=lo+per-1; if(hi>max-1) hi=max-1; if(lo>hi) sym_done(); return sym_choice("pos",lo,hi); }
void p34_byte(void){ char b[LEN+2]; memcpy(b,T,LEN); int p=pos(LEN); b[p]=(char)sym_u8("byte"); sym_assume(b[p]!=T[p]); go(b,LEN,p<6?2:0); }
void p34_ins(void){ char b[LEN+2]; int p=pos(LEN); memcpy(b,T,p); b[p]=(char)sym_u8("byte"); memcpy(b+p+1,T+p,LEN-p); go(b,LEN+1,0); }
void p34_cut(void){ int b=sym_arg("blk",0),lo=b*LEN/4,hi=(b+1)*LEN/4-1,n=sym_choice("cut",lo,hi); go(T,n,n<LEN-3?2:0); }
void p34_raw(void){ char b[16]; int n=sym_arg("n",2),i; for(i=0;i<n;i++) b[i]=(char)sym_u8("byte"); go(b,n,2); }
/* comments and white space between the numbers do not matter */
void p34_comment(void){ int k=sym_arg("k",0),p,n; char b[LEN+8]; p=sym_choice("gap",0,20); int i,g=-1; for(i=6;i<LEN;i++) if((T[i]==' '||T[i]=='\n')&&++g==p) break; if(i==LEN) sym_done(); static const char S[4][8]={" # x\n","\n\n","\t","#9#\n"}; n=strlen(S[k]); memcpy(b,T,i); memcpy(b+i,S[k],n); memcpy(b+i+n,T+i,LEN-i); plCurve *L=link2(); FILE *f=tmpfile(); fwrite(b,1,LEN+n,f); rewind(f); int a=-7,m=-7; octrope_strut *so=0; octrope_mrloc *mo=0; octrope_strutfile_read(L,&a,&so,&m,&mo,f); CHECK(octrope_error_num==0,"read without error"); CHECK(a==2&&m==2&&so[0].component[1]==1&&so[0].lead_vert[0]==3&&so[0].position[0]==0.5&&so[0].length==2.25&&so[0].compression==1&&so[1].position[1]==1e-3&&so[1].length==4&&so[1].compression==-2.5&&so[1].lead_vert[0]==2&&mo[0].vert==2&&mo[0].mr==1.5&&mo[1].component==1&&mo[1].mr==12&&mo[1].compression==3,"exactly the contents"); free(so); free(mo); fclose(f); plc_free(L); sym_reach("end"); }
static const char W[14][24]={"-2147483648","-2147483647","-5","-1","0","1","2","3","2147483647","2147483646","99999999999999999999","4","x",""};
void p34_nums(void){ int w=sym_arg("which",0); char v[14][24]={"2","2","0","1","3","0","1","1","2","0","0","2","1","1"}; strcpy(v[w],W[sym_choice("value",0,13)]); char b[400]; int n=snprintf(b,400,"STRUTS \n%s %s\n%s %s %s %s 0.5 0 2.25 1\n%s %s %s %s 1 1e-3 4 -2.5\n%s %s 1.5 0\n%s %s 12 3\n",v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13]); go(b,n,0); }
void p34_ends(void){ int c,k,i,n; rcurve r; memset(&r,0,sizeof r); r.nc=2; rc_sym(&r.p[0],4,0,0); rc_sym(&r.p[1],3,1,0); plCurve *L=rc_make(&r); octrope_strut s; memset(&s,0,sizeof s); for(k=0;k<2;k++){ s.component[k]=sym_choice("c",0,1); s.lead_vert[k]=sym_choice("v",0,s.component[k]?1:3); s.position[k]=sym_real("t"); } plc_vector e[2]; octrope_strut_ends(L,&s,e); for(k=0;k<2;k++){ c=s.component[k]; n=r.p[c].nv; double *a=r.p[c].v[s.lead_vert[k]],*b=r.p[c].v[(s.lead_vert[k]+1)%n]; for(i=0;i<3;i++) NEAR(e[k].c[i],a[i]*(1-s.position[k])+b[i]*s.position[k],1e-6,"end of the strut"); } rc_check(L,&r,0); octrope_strut_ends(L,0,e); CHECK(octrope_error_num!=0,"no strut"); octrope_strut_ends(L,&s,0); CHECK(octrope_error_num!=0,"no place for the ends"); plc_free(L); sym_reach("end"); }
void p34_nowrite(void){ octrope_strut s; octrope_mrloc m; memset(&s,0,sizeof s); memset(&m,0,sizeof m); FILE *f=tmpfile(); octrope_strutfile_write(1,&s,1,&m,0); CHECK(octrope_error_num!=0,"no file"); octrope_strutfile_write(-1,&s,1,&m,f); CHECK(octrope_error_num!=0,"negative count"); octrope_strutfile_write(1,0,1,&m,f); CHECK(octrope_error_num!=0,"no list"); octrope_strutfile_write(1,&s,-1,&m,f); CHECK(octrope_error_num!=0,"negative count"); octrope_strutfile_write(1,&s,1,0,f); CHECK(octrope_error_num!=0,"no list"); rewind(f); CHECK(fgetc(f)==EOF,"nothing written"); fclose(f); sym_reach("end"); }
/* numbers with many digits keep them */
static const double U[5][3]={{-1.2345678901234567e-100,-1.2345678901234567e-101,-9.8765432109876543e+200},{1.0/3,2.0/3,-1.0/7},{123456.789012,-0.000123456789,98765432.125},{1e300,-1e-300,0},{1234567,7654321,-1000001}};
static void rel(double a,double b,const char *m){ double d=a-b; if(d<0) d=-d; double s=b<0?-b:b; CHECK(d<=1e-14*s,m); }
void p34_ugly(void){ const double *u=U[sym_arg("set",0)]; int k,q=sym_choice("which",0,2),a,b; octrope_strut s,*so=0; octrope_mrloc m,*mo=0; memset(&s,0,sizeof s); memset(&m,0,sizeof m); s.position[0]=u[q]; s.position[1]=u[(q+1)%3]; s.length=u[(q+2)%3]; s.compression=u[q]; m.mr=u[q]; m.compression=u[(q+1)%3]; plCurve *L=link2(); FILE *f=tmpfile(); octrope_strutfile_write(1,&s,1,&m,f); rewind(f); octrope_strutfile_read(L,&a,&so,&b,&mo,f); CHECK(octrope_error_num==0&&a==1&&b==1,"read back"); for(k=0;k<2;k++) rel(so[0].position[k],s.position[k],"digits of the position"); rel(so[0].length,s.length,"digits of the length"); rel(so[0].compression,s.compression,"digits of the compression"); rel(mo[0].mr,m.mr,"digits of the radius"); rel(mo[0].compression,m.compression,"digits of the compression"); free(so); free(mo); fclose(f); plc_free(L); sym_reach("end"); }
