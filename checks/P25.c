/* P25: reading damaged curve files */
//BOUND a file with two components, constraints and colours in which: any byte (thorough: any two adjacent bytes) is replaced by an arbitrary one; it is cut off anywhere; any byte is inserted anywhere; the counts are any of a list of extreme integers; also every file "VECT" followed by up to 3 (thorough 4) arbitrary bytes. Counts above 10^6 whose allocation can succeed are excluded
//STUB a numeral containing a symbolic character reads as an arbitrary real
//JOB p25_byte blk=0..19
//JOB p25_byte2 blk=0..19 tier=thorough time=400
//JOB p25_cut blk=0..3
//JOB p25_ins blk=0..19
//JOB p25_raw n=0..3
//JOB p25_raw n=4 tier=thorough
//JOB p25_counts which=0..6
//JOB p25_cstref kind=0..2
#include "curve.h"
static const char T[]="VECT \n2 5 2 # c\n-3 2 # v\n1 1 # c\n# Constraint 1 Fixed 1 2 3\n# Constraint 2 Plane 0 0 1 5\n# Vertex\n0 0 0 # Cst: 1\n1 0 0\n0 1 0 # Cst: 2\n1 1 1 # Cst: 2\n2 2 2\n# Colors\n1 1 1 1\n0 0 0 1\n";
#define LEN ((int)sizeof(T)-1)
static void go(const char *b,int n){ FILE *f=tmpfile(); fwrite(b,1,n,f); rewind(f); int err=77,i,j; char s[128]; s[0]='x'; plCurve *L=plc_read(f,&err,s,128); if(!L){ CHECK(err!=0,"a refused file gives an error number"); CHECK(s[0]!='x',"and an error text"); }
  else { CHECK(err==0,"no error number on success"); CHECK(L->nc>=1,"components"); volatile double t=0; for(i=0;i<L->nc;i++){ CHECK(L->cp[i].nv>=1,"a component has vertices"); CHECK(L->cp[i].cc>=0&&L->cp[i].cc<=L->cp[i].nv,"colours"); for(j=-1;j<=L->cp[i].nv;j++) t=L->cp[i].vt[j].c[2]; for(j=0;j<L->cp[i].cc;j++) t=L->cp[i].clr[j].alpha; } plc_constraint *c; for(c=L->cst;c;c=c->next){ CHECK(c->cmp>=0&&c->cmp<L->nc&&c->vert>=0&&c->num_verts>=1&&c->vert+c->num_verts<=L->cp[c->cmp].nv,"constraints are on existing vertices"); CHECK(c->kind==fixed||c->kind==line||c->kind==plane,"constraint kinds"); } plc_free(L); } fclose(f); sym_reach("end"); }
static int pos(int max){ int per=(max+19)/20,b=sym_arg("blk",0),lo=b*per,hi=lo+per-1; if(hi>max-1) hi=max-1; if(lo>hi) sym_done(); return sym_choice("pos",lo,hi); }
void p25_byte(void){ char b[LEN+2]; memcpy(b,T,LEN); int p=pos(LEN); b[p]=(char)sym_u8("byte"); go(b,LEN); }
void p25_byte2(void){ char b[LEN+2]; memcpy(b,T,LEN); int p=pos(LEN-1); b[p]=(char)sym_u8("byte"); b[p+1]=(char)sym_u8("byte"); go(b,LEN); }
void p25_ins(void){ char b[LEN+2]; int p=pos(LEN); memcpy(b,T,p); b[p]=(char)sym_u8("byte"); memcpy(b+p+1,T+p,LEN-p); go(b,LEN+1); }
void p25_cut(void){ int b=sym_arg("blk",0),lo=b*LEN/4,hi=(b+1)*LEN/4-1; go(T,sym_choice("cut",lo,hi)); }
void p25_raw(void){ char b[16]="VECT"; int n=sym_arg("n",2),i; for(i=0;i<n;i++) b[4+i]=(char)sym_u8("byte"); go(b,4+n); }
static const char W[14][24]={"-2147483648","-2147483647","-5","-1","0","1","2","3","2147483647","2147483646","99999999999999999999","-99999999999999999999","x",""};
void p25_counts(void){ int w=sym_arg("which",0),i; char v[7][24]={"2","5","2","-3","2","1","1"}; strcpy(v[w],W[sym_choice("value",0,13)]); if(w==0) sym_assume(sym_native()||v[0][0]!='9'&&strlen(v[0])<9||v[0][0]=='-'); char b[400]; int n=snprintf(b,400,"VECT\n%s %s %s\n%s %s\n%s %s\n0 0 0\n1 0 0\n0 1 0\n1 1 1\n2 2 2\n1 1 1 1\n0 0 0 1\n",v[0],v[1],v[2],v[3],v[4],v[5],v[6]); go(b,n); }
/* a vertex refers to a constraint that is not defined, or several vertices to one fixed constraint */
void p25_cstref(void){ char b[400]; int k=sym_arg("kind",0),n; static const char R[12][24]={"0","-1","1","2","3","9","10","30","100","1000000","2147483647","x"}; if(k==0) n=snprintf(b,400,"VECT\n1 3 0\n-3\n0\n# Constraint 1 Fixed 1 2 3\n0 0 0 # Cst: %s\n1 0 0\n0 1 0\n",R[sym_choice("ref",0,11)]); else if(k==1) n=snprintf(b,400,"VECT\n1 3 0\n-3\n0\n# Constraint 1 Fixed 1 2 3\n0 0 0 # Cst: 1\n1 0 0 # Cst: 1\n0 1 0\n"); else n=snprintf(b,400,"VECT\n1 3 0\n-3\n0\n# Constraint %s Fixed 1 2 3\n0 0 0 # Cst: %s\n1 0 0\n0 1 0\n",R[sym_choice("def",0,8)],R[sym_choice("ref",0,8)]); go(b,n); }
