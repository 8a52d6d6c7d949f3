/* Native runtime for harnesses: values come, in call order, from the file named by $SYM_REPLAY
   (lines "name value"). Exit 0: all assertions held. Exit 77: an assertion failed (REPLAY-FAIL line). */
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <float.h>
static FILE *rf; static int expect_exit, done;
static void nxt(const char *name,char *buf){ if(!rf){ const char*p=getenv("SYM_REPLAY"); rf=p?fopen(p,"r"):NULL; if(!rf){ fprintf(stderr,"no replay file\n"); _exit(3);} } char nm[256]; if(fscanf(rf,"%255s %255s",nm,buf)!=2){ strcpy(buf,"0"); } }
static long long nxi(const char*n){ char b[256]; nxt(n,b); return strtoll(b,NULL,10); }
uint8_t sym_u8(const char*n){return (uint8_t)nxi(n);} uint16_t sym_u16(const char*n){return (uint16_t)nxi(n);} uint32_t sym_u32(const char*n){return (uint32_t)nxi(n);} uint64_t sym_u64(const char*n){return (uint64_t)nxi(n);}
double sym_real(const char*n){ char b[256]; nxt(n,b); return strtod(b,NULL); }
static void reject(const char*w){ fprintf(stderr,"REPLAY-ASSUME %s\n",w); fflush(stderr); done=1; _exit(5); }
int sym_range(const char*n,int lo,int hi){ if(lo>hi) reject("range"); int v=(int)nxi(n); if(v<lo||v>hi) reject("range"); return v; }
int sym_choice(const char*n,int lo,int hi){ return sym_range(n,lo,hi); }
int sym_concretize(int v){return v;}
int sym_arg(const char*n,int d){ char k[128]; snprintf(k,sizeof k,"SYMARG_%s",n); const char*p=getenv(k); return p?atoi(p):d; }
void sym_assume(int c){ if(!c) reject("assume"); }
static void fail(const char*m){ fprintf(stderr,"REPLAY-FAIL %s\n",m); fflush(stderr); fflush(stdout); done=1; _exit(77); }
void sym_assert_(int c,const char*m){ if(!c) fail(m); }
void sym_near_(double a,double b,double tol,const char*m){ if(!(fabs(a-b)<=tol*1e-2)){ fprintf(stderr,"REPLAY-FAIL %s: %.17g vs %.17g (tol %g)\n",m,a,b,tol); fflush(stderr); done=1; _exit(77);} }
void sym_reach(const char*t){} void sym_expect_exit(int on){expect_exit=on;} int sym_native(void){return 1;} void sym_trace(const char*m,long v){ fprintf(stderr,"TRACE %s %ld\n",m,v);} void sym_done(void){ done=1; _exit(0); }
static void atx(void){ if(!done){ done=1; fflush(stdout); if(expect_exit) _exit(0); fprintf(stderr,"REPLAY-FAIL unexpected exit()\n"); fflush(stderr); _exit(77);} }
extern void SYM_ENTRY(void);
int main(void){ atexit(atx); SYM_ENTRY(); done=1; fflush(stdout); fflush(stderr); _exit(0); }
