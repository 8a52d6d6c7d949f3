/* Harness API. Under symbolic execution these are intrinsics; in the native replay build (replay.c)
   they return the values of a counterexample/witness file. */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t  sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
double   sym_real(const char *name);              /* arbitrary (exact) real */
int      sym_range(const char *name,int lo,int hi);   /* symbolic, inclusive */
int      sym_choice(const char *name,int lo,int hi);  /* forked at once, inclusive */
int      sym_concretize(int v);
int      sym_arg(const char *name,int dflt);      /* harness parameter (bound) given by the driver */
void     sym_assume(int c);
void     sym_assert_(int c,const char *msg);
void     sym_near_(double a,double b,double tol,const char *msg);
void     sym_reach(const char *tag);              /* vacuity witness */
void     sym_expect_exit(int on);                 /* clean exit() is an acceptable outcome from here on */
int      sym_native(void);                        /* 1 in the native replay */
void     sym_trace(const char*,long);
void     sym_done(void);                          /* end this path successfully */
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c,msg) sym_assert_(!!(c), msg)
#define NEAR(a,b,tol,msg) sym_near_((a),(b),(tol),msg)
#ifdef __cplusplus
}
#endif
#endif
