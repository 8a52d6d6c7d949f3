/* Model of the C library used under symbolic execution.  Interpreted like the code under test, so
   branches on symbolic bytes fork. Functions are named rt_<libc name>. Compiled with -fno-builtin. */
typedef unsigned long size_t; typedef long ssize_t; typedef __builtin_va_list va_list;
#define NULL ((void*)0)
#define EOF (-1)
extern void *malloc(size_t), *calloc(size_t,size_t), *realloc(void*,size_t); extern void free(void*);
extern void *memmove(void*,const void*,size_t), *memcpy(void*,const void*,size_t), *memset(void*,int,size_t);
extern int sym_fmt_double(char*,int,const char*,double); extern double sym_str_double(const char*);
extern int sym_concretize(int); extern void sym_assert_(int,const char*);
typedef struct rtF { unsigned char *buf; long len, cap, pos; int eof, err, wr, std, unget; struct rtF *next; char *name; int live; char **ms_ptr; size_t *ms_len; } rtF;
static rtF s_out={0,0,0,0,0,0,1,1}, s_err={0,0,0,0,0,0,1,1}, s_in={0,0,0,0,0,0,0,1};
rtF *stdout=&s_out, *stderr=&s_err, *stdin=&s_in;
static rtF *fs=NULL; /* in-memory file system: one node per name */
static unsigned short ctab[384]; static const unsigned short *ctabp; static int utab[384],ltab[384]; static const int *utabp,*ltabp; static int errno_v;
int *rt___errno_location(void){return &errno_v;}
void rt_init(void){ int c; for(c=0;c<128;c++){ unsigned short f=0; int up=c>='A'&&c<='Z', lo=c>='a'&&c<='z', dg=c>='0'&&c<='9', sp=(c==' '||(c>=9&&c<=13)); 
  if(up)f|=256; if(lo)f|=512; if(up||lo)f|=1024; if(dg)f|=2048; if(dg||(c>='a'&&c<='f')||(c>='A'&&c<='F'))f|=4096; if(sp)f|=8192; if(c>=32&&c<127)f|=16384; if(c>32&&c<127)f|=32768; if(c==' '||c=='\t')f|=1; if(c<32||c==127)f|=2; if(c>32&&c<127&&!up&&!lo&&!dg)f|=4; if(up||lo||dg)f|=8; ctab[128+c]=f; }
  for(c=-128;c<256;c++){ utab[128+c]=(c>='a'&&c<='z')?c-32:c; ltab[128+c]=(c>='A'&&c<='Z')?c+32:c; } ctabp=ctab+128; utabp=utab+128; ltabp=ltab+128; }
const unsigned short **rt___ctype_b_loc(void){return &ctabp;} const int **rt___ctype_toupper_loc(void){return &utabp;} const int **rt___ctype_tolower_loc(void){return &ltabp;}
int rt_isspace(int c){return c==' '||(c>=9&&c<=13);} int rt_isdigit(int c){return c>='0'&&c<='9';} int rt_isalpha(int c){return (c>='a'&&c<='z')||(c>='A'&&c<='Z');} int rt_isalnum(int c){return rt_isalpha(c)||rt_isdigit(c);} int rt_toupper(int c){return c>='a'&&c<='z'?c-32:c;} int rt_tolower(int c){return c>='A'&&c<='Z'?c+32:c;}
size_t rt_strlen(const char*s){size_t n=0; while(s[n])n++; return n;}
int rt_strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int rt_strncmp(const char*a,const char*b,size_t n){ if(!n)return 0; while(--n&&*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int rt_strcasecmp(const char*a,const char*b){ while(*a&&rt_tolower(*a)==rt_tolower(*b)){a++;b++;} return rt_tolower((unsigned char)*a)-rt_tolower((unsigned char)*b); }
int rt_strncasecmp(const char*a,const char*b,size_t n){ size_t i; for(i=0;i<n;i++){ int x=rt_tolower((unsigned char)a[i]),y=rt_tolower((unsigned char)b[i]); if(x!=y||!x) return x-y; } return 0; }
int rt_isupper(int c){ return c>='A'&&c<='Z'; } int rt_islower(int c){ return c>='a'&&c<='z'; } int rt_isxdigit(int c){ return rt_isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); } int rt_isprint(int c){ return c>=32&&c<127; } int rt_ispunct(int c){ return c>32&&c<127&&!rt_isalnum(c); }
void *rt_mempcpy(void*d,const void*s,size_t n){ memcpy(d,s,n); return (char*)d+n; } void rt_bzero(void*d,size_t n){ memset(d,0,n); } void rt_bcopy(const void*s,void*d,size_t n){ memmove(d,s,n); }
int rt_memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; size_t i; for(i=0;i<n;i++) if(x[i]!=y[i]) return (int)x[i]-(int)y[i]; return 0; }
int rt_bcmp(const void*a,const void*b,size_t n){ return rt_memcmp(a,b,n); }
void *rt_memchr(const void*a,int c,size_t n){ const unsigned char*x=a; size_t i; for(i=0;i<n;i++) if(x[i]==(unsigned char)c) return (void*)(x+i); return NULL; }
char *rt_strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char *rt_stpcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d+i-1; }
char *rt_strncpy(char*d,const char*s,size_t n){ size_t i; for(i=0;i<n&&s[i];i++)d[i]=s[i]; for(;i<n;i++)d[i]=0; return d; }
char *rt_strcat(char*d,const char*s){ rt_strcpy(d+rt_strlen(d),s); return d; }
char *rt_strncat(char*d,const char*s,size_t n){ char*e=d+rt_strlen(d); size_t i; for(i=0;i<n&&s[i];i++)e[i]=s[i]; e[i]=0; return d; }
char *rt_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return NULL; } }
char *rt_strrchr(const char*s,int c){ const char*r=NULL; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char *rt_strstr(const char*h,const char*n){ size_t i; for(;;h++){ for(i=0;n[i]&&h[i]==n[i];i++); if(!n[i]) return (char*)h; if(!*h) return NULL; } }
size_t rt_strspn(const char*s,const char*a){ size_t n=0; while(s[n]&&rt_strchr(a,s[n]))n++; return n; }
size_t rt_strcspn(const char*s,const char*a){ size_t n=0; while(s[n]&&!rt_strchr(a,s[n]))n++; return n; }
char *rt_strpbrk(const char*s,const char*a){ s+=rt_strcspn(s,a); return *s?(char*)s:NULL; }
char *rt_strdup(const char*s){ size_t n=rt_strlen(s); char*d=malloc(n+1); rt_strcpy(d,s); return d; }
char *rt_strtok_r(char*s,const char*d,char**sv){ if(!s)s=*sv; if(!s) return NULL; s+=rt_strspn(s,d); if(!*s){*sv=NULL;return NULL;} char*e=s+rt_strcspn(s,d); if(*e){*e=0;*sv=e+1;} else *sv=NULL; return s; }
static char*tk; char *rt_strtok(char*s,const char*d){ return rt_strtok_r(s,d,&tk); }
long rt_strtol(const char*s,char**e,int base){ const char*p=s; int neg=0,any=0; unsigned long v=0; while(rt_isspace(*p))p++; if(*p=='-'){neg=1;p++;}else if(*p=='+')p++; if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')){p+=2;base=16;} if(base==0)base=(*p=='0')?8:10; for(;;p++){ int c=*p,d; if(c>='0'&&c<='9')d=c-'0'; else if(c>='a'&&c<='z')d=c-'a'+10; else if(c>='A'&&c<='Z')d=c-'A'+10; else break; if(d>=base)break; v=v*base+d; any=1; } if(e)*e=(char*)(any?p:s); return neg?-(long)v:(long)v; }
unsigned long rt_strtoul(const char*s,char**e,int b){ return (unsigned long)rt_strtol(s,e,b); } long long rt_strtoll(const char*s,char**e,int b){ return rt_strtol(s,e,b);} int rt_atoi(const char*s){ return (int)rt_strtol(s,NULL,10); } long rt_atol(const char*s){ return rt_strtol(s,NULL,10);}
/* length of the longest prefix of s that is a floating literal (or a symbolic-real token) */
static int fl_len(const char*s){ int i=0,dig=0; if(s[0]=='R'){ i=1; while(s[i]>='0'&&s[i]<='9')i++; return i==23?23:0; } if(s[i]=='+'||s[i]=='-')i++; if(s[i]=='R'){ return 0; } 
  if((s[i]|32)=='n'&&(s[i+1]|32)=='a'&&(s[i+2]|32)=='n') return i+3; if((s[i]|32)=='i'&&(s[i+1]|32)=='n'&&(s[i+2]|32)=='f') return i+3;
  while(rt_isdigit(s[i])){i++;dig=1;} if(s[i]=='.'){i++; while(rt_isdigit(s[i])){i++;dig=1;}} if(!dig)return 0; if((s[i]|32)=='e'){ int j=i+1; if(s[j]=='+'||s[j]=='-')j++; if(rt_isdigit(s[j])){ while(rt_isdigit(s[j]))j++; i=j; } } return i; }
double rt_strtod(const char*s,char**e){ const char*p=s; while(rt_isspace(*p))p++; int n=fl_len(p); if(!n){ if(e)*e=(char*)s; return 0; } char b[64]; int i; for(i=0;i<n&&i<63;i++)b[i]=p[i]; b[i]=0; if(e)*e=(char*)p+n; return sym_str_double(b); }
double rt_atof(const char*s){ return rt_strtod(s,NULL); }
/* ---------------------------------------------------------------- printf */
typedef struct { char*b; size_t n,cap; rtF*f; } snk;
static void fputc_raw(rtF*f,int c);
static void em(snk*k,int c){ if(k->f) fputc_raw(k->f,c); else { if(k->n+1<k->cap) k->b[k->n]=(char)c; } k->n++; }
static void emn(snk*k,const char*s,int n,int width,int left,int pad){ int i; if(!left) for(i=n;i<width;i++) em(k,pad); for(i=0;i<n;i++) em(k,s[i]); if(left) for(i=n;i<width;i++) em(k,' '); }
static int fmtv(snk*k,const char*f,va_list ap){
  for(;*f;f++){ if(*f!='%'){em(k,*f);continue;} const char*st=f; f++; int left=0,zero=0,plus=0,sp=0,alt=0,width=0,prec=-1,l=0; char spec[40]; 
    for(;;f++){ if(*f=='-')left=1; else if(*f=='0')zero=1; else if(*f=='+')plus=1; else if(*f==' ')sp=1; else if(*f=='#')alt=1; else break; }
    if(*f=='*'){ width=__builtin_va_arg(ap,int); f++; if(width<0){left=1;width=-width;} } else while(rt_isdigit(*f)) width=width*10+(*f++-'0');
    if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=__builtin_va_arg(ap,int); f++; } else while(rt_isdigit(*f)) prec=prec*10+(*f++-'0'); }
    while(*f=='l'||*f=='h'||*f=='z'||*f=='j'||*f=='t'){ if(*f=='l')l++; else if(*f=='h')l--; else l=2; f++; }
    switch(*f){ case '%': em(k,'%'); break; case 'c': { char c=(char)__builtin_va_arg(ap,int); emn(k,&c,1,width,left,' '); break; }
    case 's': { const char*s=__builtin_va_arg(ap,const char*); if(!s)s="(null)"; int n=0; while((prec<0||n<prec)&&s[n])n++; emn(k,s,n,width,left,' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': { long v; int sg=(*f=='d'||*f=='i'); if(*f=='p')v=(long)__builtin_va_arg(ap,void*); else if(l>0)v=__builtin_va_arg(ap,long); else { int t=__builtin_va_arg(ap,int); if(l==-1) t=sg?(int)(short)t:(int)(unsigned short)t; if(l<=-2) t=sg?(int)(signed char)t:(int)(unsigned char)t; t=sym_concretize(t); v=sg?(long)t:(long)(unsigned)t; }
      char b[32]; int n=0,neg=0; unsigned long u; if(sg&&v<0){neg=1;u=0-(unsigned long)v;} else u=(unsigned long)v; unsigned base=(*f=='x'||*f=='X'||*f=='p')?16:*f=='o'?8:10; do{ unsigned d=(unsigned)(u%base); b[31-n++]=(char)(d<10?'0'+d:(*f=='X'?'A':'a')+d-10); u/=base; }while(u); while(n<prec&&n<30) b[31-n++]='0'; if(alt&&base==16&&v!=0){ b[31-n++]=*f; b[31-n++]='0'; } if(*f=='p'){ b[31-n++]='x'; b[31-n++]='0'; }
      char sgn=neg?'-':plus&&sg?'+':sp&&sg?' ':0; if(zero&&!left&&prec<0){ if(sgn)em(k,sgn); emn(k,b+32-n,n,width-(sgn?1:0),0,'0'); } else { if(sgn)b[31-n++]=sgn; emn(k,b+32-n,n,width,left,' '); } break; }
    case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { double d=__builtin_va_arg(ap,double); int i=0; spec[i++]='%'; if(left)spec[i++]='-'; if(zero)spec[i++]='0'; if(plus)spec[i++]='+'; if(sp)spec[i++]=' '; if(alt)spec[i++]='#'; if(width){ if(width>=100)spec[i++]='0'+width/100%10; if(width>=10)spec[i++]='0'+width/10%10; spec[i++]='0'+width%10; } if(prec>=0){ spec[i++]='.'; if(prec>=10)spec[i++]='0'+prec/10%10; spec[i++]='0'+prec%10; } spec[i++]=*f; spec[i]=0; char b[400]; int n=sym_fmt_double(b,400,spec,d); emn(k,b,n,0,0,' '); break; }
    case 'n': { int*p=__builtin_va_arg(ap,int*); *p=(int)k->n; break; }
    default: for(;st<=f&&*st;st++) em(k,*st); if(!*f) return (int)k->n; } }
  return (int)k->n; }
int rt_vsnprintf(char*b,size_t n,const char*f,va_list ap){ snk k={b,0,n,NULL}; fmtv(&k,f,ap); if(n) b[k.n<n?k.n:n-1]=0; return (int)k.n; }
int rt_vsprintf(char*b,const char*f,va_list ap){ snk k={b,0,(size_t)1<<40,NULL}; fmtv(&k,f,ap); b[k.n]=0; return (int)k.n; }
int rt_sprintf(char*b,const char*f,...){ va_list ap; __builtin_va_start(ap,f); int r=rt_vsprintf(b,f,ap); __builtin_va_end(ap); return r; }
int rt_snprintf(char*b,size_t n,const char*f,...){ va_list ap; __builtin_va_start(ap,f); int r=rt_vsnprintf(b,n,f,ap); __builtin_va_end(ap); return r; }
int rt_vfprintf(rtF*s,const char*f,va_list ap){ if(s->std) return 0; snk k={NULL,0,0,s}; return fmtv(&k,f,ap); }
int rt_fprintf(rtF*s,const char*f,...){ if(s->std) return 0; va_list ap; __builtin_va_start(ap,f); int r=rt_vfprintf(s,f,ap); __builtin_va_end(ap); return r; }
int rt_vprintf(const char*f,va_list ap){ return 0; }
int rt_vasprintf(char**o,const char*f,va_list ap){ va_list a2; __builtin_va_copy(a2,ap); snk k={NULL,0,0,NULL}; fmtv(&k,f,a2); *o=malloc(k.n+1); return rt_vsprintf(*o,f,ap); }
int rt_asprintf(char**o,const char*f,...){ va_list ap; __builtin_va_start(ap,f); int r=rt_vasprintf(o,f,ap); __builtin_va_end(ap); return r; }
/* ---------------------------------------------------------------- stdio */
static void grow(rtF*f,long n){ if(n>f->cap){ long c=f->cap?f->cap*2:256; if(c<n)c=n; f->buf=realloc(f->buf,c); f->cap=c; } }
static void ms_sync(rtF*f){ if(f->ms_ptr){ grow(f,f->len+1); f->buf[f->len]=0; *f->ms_ptr=(char*)f->buf; *f->ms_len=f->len; } }
static void fputc_raw(rtF*f,int c){ if(f->std) return; grow(f,f->pos+1); while(f->len<f->pos) f->buf[f->len++]=0; f->buf[f->pos++]=(unsigned char)c; if(f->pos>f->len) f->len=f->pos; }
int rt_fputc(int c,rtF*f){ fputc_raw(f,c); return c&255; } int rt_putc(int c,rtF*f){ fputc_raw(f,c); return c&255; } int rt__IO_putc(int c,rtF*f){ fputc_raw(f,c); return c&255; }
int rt_fputs(const char*s,rtF*f){ if(f->std) return 0; for(;*s;s++) fputc_raw(f,*s); return 1; }
size_t rt_fwrite(const void*p,size_t sz,size_t n,rtF*f){ const char*c=p; size_t i; if(f->std) return n; for(i=0;i<sz*n;i++) fputc_raw(f,c[i]); return n; }
int rt_fgetc(rtF*f){ if(f->std||f->pos>=f->len){ f->eof=1; return EOF; } return f->buf[f->pos++]; } int rt_getc(rtF*f){ return rt_fgetc(f);} int rt__IO_getc(rtF*f){ return rt_fgetc(f);} int rt_getchar(void){return EOF;}
int rt_ungetc(int c,rtF*f){ if(c==EOF) return EOF; f->eof=0; if(f->pos>0){ f->pos--; f->buf[f->pos]=(unsigned char)c; } return c; }
size_t rt_fread(void*p,size_t sz,size_t n,rtF*f){ size_t i,t=sz*n; char*c=p; for(i=0;i<t;i++){ int x=rt_fgetc(f); if(x==EOF) return i/sz; c[i]=(char)x; } return n; }
char *rt_fgets(char*b,int n,rtF*f){ int i=0; while(i<n-1){ int c=rt_fgetc(f); if(c==EOF) break; b[i++]=(char)c; if(c=='\n') break; } if(!i) return NULL; b[i]=0; return b; }
long rt_getline(char**lp,size_t*np,rtF*f){ size_t cap=128,i=0; char*b; if(!*lp||*np<2){ b=(char*)realloc(*lp,cap); if(!b) return -1; *lp=b; *np=cap; } cap=*np; b=*lp; for(;;){ int c=rt_fgetc(f); if(c==EOF) break; if(i+2>cap){ cap*=2; b=(char*)realloc(b,cap); if(!b) return -1; *lp=b; *np=cap; } b[i++]=(char)c; if(c=='\n') break; } b[i]=0; return i?(long)i:-1; }
int rt_feof(rtF*f){return f->eof;} int rt_ferror(rtF*f){return f->err;} void rt_clearerr(rtF*f){f->eof=0;f->err=0;} void rt_rewind(rtF*f){ f->pos=0; f->eof=0; f->err=0; } long rt_ftell(rtF*f){return f->pos;}
int rt_fseek(rtF*f,long o,int w){ f->eof=0; long p=w==0?o:w==1?f->pos+o:f->len+o; if(p<0) return -1; f->pos=p; return 0; } int rt_fileno(rtF*f){return 3;} int rt_fflush(rtF*f){ if(f) ms_sync(f); return 0; }
static rtF *mkf(void){ rtF*f=calloc(1,sizeof(rtF)); f->live=1; return f; }
rtF *rt_tmpfile(void){ return mkf(); }
rtF *rt_fmemopen(void*b,size_t n,const char*m){ rtF*f=mkf(); if(m[0]=='r'){ grow(f,(long)n); size_t i; for(i=0;i<n;i++) f->buf[i]=((unsigned char*)b)[i]; f->len=(long)n; } return f; }
rtF *rt_open_memstream(char**p,size_t*n){ rtF*f=mkf(); f->ms_ptr=p; f->ms_len=n; return f; }
rtF *rt_fopen(const char*nm,const char*m){ rtF*d; for(d=fs;d;d=d->next) if(!rt_strcmp(d->name,nm)) break; if(m[0]=='r'&&!d) return NULL; if(!d){ d=mkf(); d->name=rt_strdup(nm); d->next=fs; fs=d; } if(m[0]=='w') d->len=0; d->pos=m[0]=='a'?d->len:0; d->eof=0; return d; }
int rt_remove(const char*nm){ rtF*d; for(d=fs;d;d=d->next) if(!rt_strcmp(d->name,nm)){ d->name[0]=0; return 0; } return -1; } int rt_unlink(const char*nm){return rt_remove(nm);}
int rt_fclose(rtF*f){ if(f->std) return 0; if(f->name){ return 0; } if(f->ms_ptr){ ms_sync(f); free(f); return 0; } free(f->buf); free(f); return 0; }
/* ---------------------------------------------------------------- scanf */
typedef struct { rtF*f; const char*s; long n; } src;
static int gc(src*k){ int c; if(k->f) c=rt_fgetc(k->f); else { c=(unsigned char)*k->s; if(!c) c=EOF; else k->s++; } if(c!=EOF) k->n++; return c; }
static void ug(src*k,int c){ if(c==EOF) return; k->n--; if(k->f) rt_ungetc(c,k->f); else k->s--; }
static int inset(const char*b,const char*e,int c){ const char*p=b; while(p<e){ if(p+2<e&&p[1]=='-'){ if(c>=(unsigned char)p[0]&&c<=(unsigned char)p[2]) return 1; p+=3; } else { if((unsigned char)*p==c) return 1; p++; } } return 0; }
static int scanv(src*k,const char*f,va_list ap){ int got=0,c; 
  for(;*f;f++){ if(rt_isspace(*f)){ while((c=gc(k))!=EOF&&rt_isspace(c)); ug(k,c); continue; } if(*f!='%'){ c=gc(k); if(c!=(unsigned char)*f){ ug(k,c); return (c==EOF&&!got)?EOF:got; } continue; }
    f++; int sup=0,w=0,l=0; if(*f=='*'){sup=1;f++;} while(rt_isdigit(*f)) w=w*10+(*f++-'0'); while(*f=='l'||*f=='h'||*f=='z'||*f=='j'){ if(*f=='l')l++; else if(*f=='h')l--; else l=2; f++; }
    if(*f!='c'&&*f!='['&&*f!='n'&&*f!='%'){ while((c=gc(k))!=EOF&&rt_isspace(c)); ug(k,c); if(c==EOF) return got?got:EOF; }
    switch(*f){ case '%': while((c=gc(k))!=EOF&&rt_isspace(c)); if(c!='%'){ ug(k,c); return got; } break;
    case 'n': if(!sup) *__builtin_va_arg(ap,int*)=(int)k->n; break;
    case 'd': case 'u': case 'i': case 'x': { int neg=0,any=0,sat=0,base=*f=='x'?16:10; unsigned long v=0; if(!w)w=1000; c=gc(k); if((c=='-'||c=='+')&&w>0){ neg=c=='-'; w--; c=gc(k); } 
      for(;w>0&&c!=EOF;w--){ int d; if(c>='0'&&c<='9')d=c-'0'; else if(base==16&&c>='a'&&c<='f')d=c-'a'+10; else if(base==16&&c>='A'&&c<='F')d=c-'A'+10; else break; if(any>=(base==16?15:18)){ unsigned long lim=(*f=='d'||*f=='i')?0x7fffffffffffffffUL:~0UL; if(v>(lim-d)/base) { v=lim; sat=1; } } if(!sat) v=v*base+d; any++; c=gc(k); } ug(k,c); if(!any) return got?got:(c==EOF?EOF:0); 
      if(neg&&!(sat&&*f!='d'&&*f!='i'))v=0-v; if(!sup){ if(l>0)*__builtin_va_arg(ap,long*)=(long)v; else if(l==-1)*__builtin_va_arg(ap,short*)=(short)v; else if(l<=-2)*__builtin_va_arg(ap,char*)=(char)v; else *__builtin_va_arg(ap,int*)=(int)v; got++; } break; }
    case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { char b[64]; int n=0,ch; if(!w||w>60)w=60; /* greedy literal scan */ int st=0; /*0 start 1 int 2 frac 3 exp-start 4 exp-sign 5 exp 9 token*/ int dig=0; for(;n<w;){ ch=gc(k); int ok=0; if(ch!=EOF){ if(st==9&&ch>='0'&&ch<='9')ok=1; else if(st==0&&(ch=='+'||ch=='-')&&n==0)ok=1; else if(st==0&&ch=='R'&&n==0){ok=1;st=9;} else if((st==0||st==1)&&ch>='0'&&ch<='9'){ok=1;st=1;dig=1;} else if((st==0||st==1)&&ch=='.'){ok=1;st=2;} else if(st==2&&ch>='0'&&ch<='9'){ok=1;dig=1;} else if((st==1||st==2)&&dig&&(ch|32)=='e'){ok=1;st=3;} else if(st==3&&(ch=='+'||ch=='-')){ok=1;st=4;} else if((st==3||st==4||st==5)&&ch>='0'&&ch<='9'){ok=1;st=5;} } if(!ok){ ug(k,ch); break; } b[n++]=(char)ch; } b[n]=0; if(st==9){ if(n!=23) return got; } else if(!dig||st==3||st==4) return got?got:(n==0&&ch==EOF?EOF:0); double d=sym_str_double(b); if(!sup){ if(l>0)*__builtin_va_arg(ap,double*)=d; else *__builtin_va_arg(ap,float*)=(float)d; got++; } break; }
    case 's': { char*o=sup?NULL:__builtin_va_arg(ap,char*); int n=0; if(!w)w=1<<30; while(n<w&&(c=gc(k))!=EOF){ if(rt_isspace(c)){ ug(k,c); break; } if(o)o[n]=(char)c; n++; } if(o){o[n]=0;got++;} break; }
    case 'c': { char*o=sup?NULL:__builtin_va_arg(ap,char*); int n=0; if(!w)w=1; while(n<w){ c=gc(k); if(c==EOF) return got?got:EOF; if(o)o[n]=(char)c; n++; } if(o)got++; break; }
    case '[': { f++; int inv=0; if(*f=='^'){inv=1;f++;} const char*b=f; if(*f==']')f++; while(*f&&*f!=']')f++; char*o=sup?NULL:__builtin_va_arg(ap,char*); int n=0; if(!w)w=1<<30; c=0; while(n<w&&(c=gc(k))!=EOF){ if(inset(b,f,c)==inv){ ug(k,c); break; } if(o)o[n]=(char)c; n++; } if(!n) return (c==EOF&&!got)?EOF:got; if(o){o[n]=0;got++;} break; }
    default: return got; } }
  return got; }
int rt_vfscanf(rtF*s,const char*f,va_list ap){ src k={s,NULL,0}; return scanv(&k,f,ap); } int rt_vsscanf(const char*s,const char*f,va_list ap){ src k={NULL,s,0}; return scanv(&k,f,ap); }
int rt_fscanf(rtF*s,const char*f,...){ va_list ap; __builtin_va_start(ap,f); int r=rt_vfscanf(s,f,ap); __builtin_va_end(ap); return r; }
int rt_sscanf(const char*s,const char*f,...){ va_list ap; __builtin_va_start(ap,f); int r=rt_vsscanf(s,f,ap); __builtin_va_end(ap); return r; }
/* ---------------------------------------------------------------- misc */
static void msort(char*b,size_t n,size_t s,int(*c)(const void*,const void*),char*t){ if(n<=1) return; size_t n1=n/2,n2=n-n1; char*b1=b,*b2=b+n1*s; msort(b1,n1,s,c,t); msort(b2,n2,s,c,t); char*o=t; while(n1&&n2){ if(c(b1,b2)<=0){ memcpy(o,b1,s); b1+=s; n1--; } else { memcpy(o,b2,s); b2+=s; n2--; } o+=s; } if(n1) memcpy(o,b1,n1*s); memcpy(b,t,(n-n2)*s); }
void rt_qsort(void*b,size_t n,size_t s,int(*c)(const void*,const void*)){ if(n<2||!s) return; char*t=malloc(n*s); msort(b,n,s,c,t); free(t); }
void *rt_bsearch(const void*k,const void*b,size_t n,size_t s,int(*c)(const void*,const void*)){ size_t l=0,u=n; while(l<u){ size_t i=(l+u)/2; const char*p=(const char*)b+i*s; int r=c(k,p); if(r<0)u=i; else if(r>0)l=i+1; else return (void*)p; } return NULL; }
long rt_write(int fd,const void*b,unsigned long n){ return (long)n; }
double rt_hypot(double x,double y){ extern double sqrt(double); return sqrt(x*x+y*y); }
double rt_tan(double x){ extern double sin(double),cos(double); return sin(x)/cos(x); }
double rt_fdim(double x,double y){ return x>y?x-y:0; } double rt_fma(double x,double y,double z){ return x*y+z; }
long rt_labs(long x){ return x<0?-x:x; } long long rt_llabs(long long x){ return x<0?-x:x; }
unsigned long rt_strnlen(const char*s,unsigned long n){ unsigned long i=0; while(i<n&&s[i]) i++; return i; }
char *rt_strndup(const char*s,unsigned long n){ extern void*malloc(unsigned long); unsigned long i,l=rt_strnlen(s,n); char*r=malloc(l+1); for(i=0;i<l;i++) r[i]=s[i]; r[l]=0; return r; }
void *rt_reallocarray(void*p,unsigned long a,unsigned long b){ extern void*realloc(void*,unsigned long); return realloc(p,a*b); }
unsigned rt_sleep(unsigned s){ return 0; } int rt_usleep(unsigned s){ return 0; } int rt_getpid(void){ return 4242; }
void rt_sincos(double x,double*s,double*c){ extern double sin(double),cos(double); *s=sin(x); *c=cos(x); }
int rt_atexit(void(*f)(void)){return 0;} 
static unsigned long rs=1; int rt_rand(void){ rs=rs*6364136223846793005UL+1442695040888963407UL; return (int)((rs>>33)&0x7fffffff); } long rt_random(void){return rt_rand();} double rt_drand48(void){ return rt_rand()/2147483648.0; }
char *rt___strcpy_chk(char*d,const char*s,size_t n){ return rt_strcpy(d,s);} char *rt___strcat_chk(char*d,const char*s,size_t n){ return rt_strcat(d,s);} 
