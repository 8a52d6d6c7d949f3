/* P20: permutation, dihedral, cyclic, orientation groups and multi-indices */
//BOUND permutation groups on 1..6 elements (every element, successor order), any permutation of 7 (thorough 8) symbolic elements; composition, inverse, period for every pair on <=4 elements and symbolic ones on 7; dihedral and cyclic groups on 1..9 elements; multi-indices of up to 3 groups; validity checks with every entry symbolic
//JOB p20_cycle kind=0..2 n=1..5
//JOB p20_cycle kind=0 n=6
//JOB p20_cycle kind=1..2 n=6..9
//JOB p20_cycle kind=3 n=1
//JOB p20_next n=7
//JOB p20_next n=8 tier=thorough
//JOB p20_algebra n=1..4
//JOB p20_algebra7
//JOB p20_period n=1..5
//JOB p20_okperm n=1..4
//JOB p20_okperm n=5 tier=thorough
//JOB p20_okperm7
//JOB p20_okdi n=1..4
//JOB p20_okcy n=1..4
//JOB p20_cmp kind=0..2 n=1..3
//JOB p20_cmp kind=3 n=1
//JOB p20_multi kind=0..2 a=1..3 b=1..3 c=0..2
//JOB p20_multi kind=3 a=1 b=1 c=0..1
//JOB p20_multisame n=2..4
//JOB p20_unique kind=0..2 n=3..4
#include "diag.h"
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_orientation.h"
static pd_iterops_t *O(int k){ return k==0?&perm_ops:k==1?&dihedral_ops:k==2?&cyclic_ops:&orientation_ops; }
static pd_idx_t *mapof(int k,void *x){ return k==0?((pd_perm_t*)x)->map:k==1?((pd_dihedral_t*)x)->map:k==2?((pd_cyclic_t*)x)->map:0; }
static int orof(int k,void *x){ return k==1?((pd_dihedral_t*)x)->orient:k==3?((pd_orientation_t*)x)->orient:0; }
static int refnext(unsigned *p,int n){ int k=n-2,l; while(k>=0&&p[k]>p[k+1]) k--; if(k<0){ int i; for(i=0;i<n;i++) p[i]=i; return 0; } for(l=n-1;p[l]<p[k];l--); unsigned t=p[k]; p[k]=p[l]; p[l]=t; int i=k+1,j=n-1; while(i<j){ t=p[i]; p[i]=p[j]; p[j]=t; i++; j--; } return 1; }
static int is_rot(pd_idx_t *m,int n,int neg){ int i; for(i=0;i<n;i++) if(m[i]!=(unsigned)((neg?(int)m[0]-i+n:(int)m[0]+i)%n)) return 0; return 1; }
static unsigned fact(int n){ unsigned f=1; while(n>1) f*=n--; return f; }
/* the whole cycle of values: legal, all different, back to the start after exactly nvals steps; copies are equal and independent */
void p20_cycle(void){ int k=sym_arg("kind",0); pd_idx_t n=sym_arg("n",3); pd_iterops_t *o=O(k); void *x=o->new(&n); unsigned N=k==0?fact(n):k==1?2*n:k==2?n:2,i,j; CHECK(o->nvals(x)==N,"number of values"); void **all=calloc(N,sizeof(void*)); unsigned ref[10]; for(i=0;i<n;i++) ref[i]=i;
  for(i=0;i<N;i++){ CHECK(o->ok(x),"every value passes its own check"); if(k==0) for(j=0;j<n;j++) CHECK(mapof(k,x)[j]==ref[j],"permutations come in lexicographic order from the identity"); if(k==1) CHECK(is_rot(mapof(k,x),n,orof(k,x)!=PD_POS_ORIENTATION),"rotation or reflection"); if(k==2) CHECK(is_rot(mapof(k,x),n,0),"rotation"); if(i==0&&k<3) for(j=0;j<n;j++) CHECK(mapof(k,x)[j]==j,"starts at the identity");
    all[i]=o->copy(x); CHECK(all[i]!=x&&o->cmp(&all[i],&x)==0&&o->ok(all[i]),"a copy is equal"); if(k==0) refnext(ref,n); o->incr(x); if(N>1) CHECK(o->cmp(&all[i],&x)!=0,"a copy is independent"); }
  CHECK(o->cmp(&all[0],&x)==0,"back to the first value after the full cycle"); 
  if(k==0&&n>4) for(i=1;i<N;i++) CHECK(o->cmp(&all[i-1],&all[i])<0,"ordered"); else for(i=0;i<N;i++) for(j=0;j<i;j++) CHECK(o->cmp(&all[i],&all[j])!=0,"values do not repeat");
  for(i=0;i<N;i++){ o->free(&all[i]); CHECK(all[i]==0,"freed"); o->free(&all[i]); } free(all); o->free(&x); sym_reach("end"); }
static pd_perm_t *symperm(pd_idx_t n,const char *nm){ unsigned i,j; pd_perm_t *p=pd_new_perm(&n); for(i=0;i<n;i++){ p->map[i]=sym_range(nm,0,n-1); for(j=0;j<i;j++) sym_assume(p->map[i]!=p->map[j]); } return p; }
static pd_perm_t *chperm(pd_idx_t n,const char *nm){ pd_perm_t *p=pd_new_perm(&n); int r=sym_choice(nm,0,fact(n)-1); unsigned i; while(r-->0) refnext(p->map,n); (void)i; pd_regenerate_pcidx(p); return p; }
void p20_next(void){ pd_idx_t n=sym_arg("n",7),i; pd_perm_t *p=symperm(n,"p"); unsigned ref[10]; for(i=0;i<n;i++) ref[i]=p->map[i]; refnext(ref,n); pd_increment_perm(p); for(i=0;i<n;i++) CHECK(p->map[i]==ref[i],"next permutation in lexicographic order"); sym_reach("end"); }
void p20_algebra(void){ pd_idx_t n=sym_arg("n",3),i; pd_perm_t *a=chperm(n,"a"),*b=chperm(n,"b"),*c=pd_compose_perms(a,b),*ia=pd_inverse_perm(a),*e=pd_compose_perms(a,ia),*f=pd_compose_perms(ia,a); CHECK(pd_perm_ok(a)&&pd_perm_ok(b)&&pd_perm_ok(c)&&pd_perm_ok(ia),"results pass the check"); unsigned A[8]; int id=1,eq=1; for(i=0;i<n;i++){ A[i]=a->map[i]; CHECK(c->map[i]==a->map[b->map[i]],"product maps x to A(B(x))"); CHECK(ia->map[a->map[i]]==i,"inverse"); id&=a->map[i]==i; eq&=a->map[i]==b->map[i]; }
  CHECK(pd_perm_is_e(a)==id,"identity recognised"); CHECK(pd_perms_eq(a,b)==eq,"equality"); CHECK(pd_perm_is_e(e)&&pd_perm_is_e(f)&&pd_perm_ok(e),"A times its inverse is the identity"); pd_stareq_perm(a,b); for(i=0;i<n;i++) CHECK(a->map[i]==c->map[i],"in-place product equals the product"); CHECK(pd_perm_ok(a),"in-place product passes the check"); 
  for(i=0;i<n;i++) A[i]=a->map[i]; refnext(A,n); pd_increment_perm(a); for(i=0;i<n;i++) CHECK(a->map[i]==A[i],"iteration continues from the product"); pd_free_perm((void**)&a); pd_free_perm((void**)&b); pd_free_perm((void**)&c); pd_free_perm((void**)&ia); pd_free_perm((void**)&e); pd_free_perm((void**)&f); sym_reach("end"); }
void p20_algebra7(void){ pd_idx_t n=7,i; pd_perm_t *a=symperm(n,"a"); int v=sym_choice("b",0,5); pd_perm_t *b=pd_new_perm(&n); int t[8]; perm_variant(t,7,v); for(i=0;i<n;i++) b->map[i]=t[i]; pd_perm_t *c=pd_compose_perms(a,b); for(i=0;i<n;i++) CHECK(c->map[i]==a->map[t[i]],"product maps x to A(B(x))"); pd_stareq_perm(a,b); int eq=pd_perms_eq(a,c); CHECK(eq,"in-place product equals the product"); pd_perm_t *ib=pd_inverse_perm(b); for(i=0;i<n;i++) CHECK(ib->map[t[i]]==i,"inverse"); sym_reach("end"); }
void p20_period(void){ pd_idx_t n=sym_arg("n",3),i; pd_perm_t *a=chperm(n,"a"); unsigned P=pd_perm_period(a),k; unsigned x[8]; for(i=0;i<n;i++) x[i]=a->map[i]; for(k=1;;k++){ int e=1; for(i=0;i<n;i++) e&=x[i]==i; if(e) break; for(i=0;i<n;i++) x[i]=a->map[x[i]]; } CHECK(P==k,"period is the first power that is the identity"); CHECK(pd_perm_ok(a),"period leaves the permutation alone"); sym_reach("end"); }
void p20_okperm(void){ pd_idx_t n=sym_arg("n",3),i,j; pd_perm_t *p=pd_new_perm(&n); int good=1; for(i=0;i<n;i++){ p->map[i]=sym_range("m",0,n); } for(i=0;i<n;i++){ good&=p->map[i]<n; for(j=0;j<i;j++) good&=p->map[i]!=p->map[j]; } int wrong=sym_choice("idx",0,1); if(wrong){ p->pc_idx=sym_choice("pc",0,fact(n)+1); int ok=pd_perm_ok(p); unsigned r[8]; for(i=0;i<n;i++) r[i]=i; unsigned s; for(s=0;s<p->pc_idx&&s<fact(n)-1;s++) refnext(r,n); int m=p->pc_idx<fact(n); for(i=0;i<n;i++) m&=p->map[i]==r[i]; CHECK(ok==m,"accepted exactly when the entries are the permutation with that index"); } else { sym_assume(good); pd_regenerate_pcidx(p); CHECK(pd_perm_ok(p),"every permutation is accepted"); } sym_reach("end"); }
void p20_okperm7(void){ pd_idx_t n=7,i,j; pd_perm_t *p=pd_new_perm(&n); int v=sym_choice("v",0,4),t[8],good=1; perm_variant(t,7,v); for(i=0;i<n;i++) p->map[i]=t[i]; i=sym_choice("i",0,6); j=sym_choice("j",0,6); p->map[i]=sym_u32("a"); p->map[j]=sym_u32("b"); unsigned x,y; for(x=0;x<n;x++){ good&=p->map[x]<n; for(y=0;y<x;y++) good&=p->map[x]!=p->map[y]; } CHECK(pd_perm_ok(p)==good,"accepted exactly when it is a permutation"); sym_reach("end"); }
void p20_okdi(void){ pd_idx_t n=sym_arg("n",3),i; pd_dihedral_t *d=pd_new_dihedral(&n); for(i=0;i<n;i++) d->map[i]=sym_range("m",0,n+1); d->orient=sym_range("o",0,3); int up=d->map[0]<n,dn=d->map[0]<n; for(i=1;i<n;i++){ up&=(d->map[i]==(d->map[0]+i>=n?d->map[0]+i-n:d->map[0]+i)); dn&=(d->map[i]==(d->map[0]<i?d->map[0]+n-i:d->map[0]-i)); } int good=((d->orient==PD_POS_ORIENTATION)&up)|((d->orient==PD_NEG_ORIENTATION)&dn); CHECK(pd_dihedral_ok(d)==good,"accepted exactly when it is a rotation or reflection as marked"); sym_reach("end"); }
void p20_okcy(void){ pd_idx_t n=sym_arg("n",3),i; pd_cyclic_t *d=pd_new_cyclic(&n); for(i=0;i<n;i++) d->map[i]=sym_range("m",0,n+1); int up=d->map[0]<n; for(i=1;i<n;i++) up&=(d->map[i]==(d->map[0]+i>=n?d->map[0]+i-n:d->map[0]+i)); CHECK(pd_cyclic_ok(d)==up,"accepted exactly when it is a rotation"); sym_reach("end"); }
static int sgn(int x){ return (x>0)-(x<0); }
void p20_cmp(void){ int k=sym_arg("kind",0); pd_idx_t n=sym_arg("n",3); pd_iterops_t *o=O(k); int N=k==0?fact(n):k==1?2*n:k==2?n:2,r[3],i,j; void *x[3]; for(i=0;i<3;i++){ r[i]=sym_choice("r",0,N-1); x[i]=o->new(&n); for(j=0;j<r[i];j++) o->incr(x[i]); } int ab=o->cmp(&x[0],&x[1]),ba=o->cmp(&x[1],&x[0]),bc=o->cmp(&x[1],&x[2]),ac=o->cmp(&x[0],&x[2]); CHECK((ab==0)==(r[0]==r[1]),"compares equal exactly when equal"); CHECK(sgn(ab)==-sgn(ba),"comparison is antisymmetric"); if(ab<0&&bc<0) CHECK(ac<0,"comparison is transitive"); sym_reach("end"); }
void p20_multi(void){ int k=sym_arg("kind",0),na=sym_arg("a",2),nb=sym_arg("b",2),nc=sym_arg("c",0),i,j; pd_iterops_t *o=O(k); pd_idx_t s[3]={na,nb,nc}; pd_idx_t *sp[3]={s,s+1,s+2}; pd_idx_t no=nc?3:2; pd_multidx_t *x=pd_new_multidx(no,(void**)sp,*o); unsigned N=1; for(i=0;i<(int)no;i++) N*= k==0?fact(s[i]):k==1?2*s[i]:k==2?s[i]:2; CHECK(pd_multidx_nvals(x)==N,"number of tuples"); pd_multidx_t **all=calloc(N,sizeof *all); for(i=0;i<(int)N;i++){ CHECK(pd_multidx_ok(x),"tuple passes the check"); all[i]=pd_copy_multidx(x); CHECK(pd_multidx_ok(all[i])&&pd_multidx_cmp(&all[i],&x)==0,"a copy is equal"); pd_increment_multidx(x); } CHECK(pd_multidx_cmp(&all[0],&x)==0,"back to the first tuple after the full cycle"); for(i=0;i<(int)N;i++) for(j=0;j<i;j++) CHECK(pd_multidx_cmp(&all[i],&all[j])!=0,"tuples do not repeat"); CHECK(pd_multidxs_unique(N,all),"reported unique"); 
  for(i=0;i<(int)N;i++) pd_free_multidx(&all[i]); free(all); pd_free_multidx(&x); CHECK(x==0,"freed"); pd_free_multidx(&x); sym_reach("end"); }
/* duplicates anywhere are noticed */
void p20_multisame(void){ int n=sym_arg("n",3),i; pd_idx_t s[2]={2,2}; pd_idx_t *sp[2]={s,s+1}; pd_multidx_t *all[6]; int same=0,r[6],j; for(i=0;i<n;i++){ all[i]=pd_new_multidx(2,(void**)sp,dihedral_ops); r[i]=sym_choice("r",0,5); for(j=0;j<r[i];j++) pd_increment_multidx(all[i]); for(j=0;j<i;j++) same|=r[i]==r[j]; } CHECK(pd_multidxs_unique(n,all)==!same,"unique exactly when no two are equal"); sym_reach("end"); }
void p20_unique(void){ int k=sym_arg("kind",0); pd_idx_t n=sym_arg("n",3); pd_iterops_t *o=O(k); int m=sym_choice("m",0,3),i,j,r[3],same=0,N=k==0?6:k==1?2*n:n; void *x[3]; for(i=0;i<m;i++){ x[i]=o->new(&n); r[i]=sym_choice("r",0,N-1); for(j=0;j<r[i];j++) o->incr(x[i]); for(j=0;j<i;j++) same|=r[i]==r[j]; } int u=k==0?pd_perms_unique(m,(pd_perm_t**)x):k==1?pd_dihedrals_unique(m,(pd_dihedral_t**)x):pd_cyclics_unique(m,(pd_cyclic_t**)x); CHECK(u==!same,"unique exactly when no two are equal"); sym_reach("end"); }
