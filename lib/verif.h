/* verif.h: the contract layer used by every unit.

   A unit is compiled twice from the same text:
     - by goto-cc: inputs are nondeterministic, ENSURES/REQUIRES become proof
       obligations, CBMC has to discharge them for all inputs;
     - by gcc (VNATIVE): inputs come from a recorded counterexample or from a
       random generator, so that a failed obligation can be replayed on the
       real code.

   ASSUME(c)        part of a precondition, or of a callee's postcondition
   ENSURES(c, msg)  obligation: postcondition of the function under contract
   REQUIRES(c, msg) obligation: precondition of a callee, asserted at the call
   PROBE(name)      must be REACHABLE: vacuity guard; the runner demands that
                    the verifier refutes it on every run
   END()            the path ends here (exceptional exit)                    */
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>

#ifndef VNATIVE
/* ------------------------------------------------------------------ CBMC */
#define ASSUME(c)        __CPROVER_assume(c)
#define ENSURES(c, msg)  __CPROVER_assert((c), "ensures: " msg)
#define REQUIRES(c, msg) __CPROVER_assert((c), "requires: " msg)
#define PROBE(name)      __CPROVER_assert(0, "PROBE " name)
#define END()            __CPROVER_assume(0)
unsigned char nondet_uchar(void);
int  nondet_int(void);
long nondet_long(void);
_Bool nondet_bool_(void);
static unsigned char in_uchar(void) { unsigned char v = nondet_uchar(); __CPROVER_input("in", v); return v; }
static char  in_char(void)  { return (char) in_uchar(); }
static int   in_int(void)   { int v = nondet_int();   __CPROVER_input("in", v); return v; }
static long  in_long(void)  { long v = nondet_long(); __CPROVER_input("in", v); return v; }
static int   in_bool(void)  { unsigned char v = nondet_bool_(); __CPROVER_input("in", v); return v; }
static int   in_range(int lo, int hi)
{ int v = nondet_int(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input("in", v); return v; }
/* any string of at most n characters; s has room for n+1 */
static void  in_str(char* s, int n, const char* hint)
{ int i; (void)hint; for (i = 0; i < n; i++) s[i] = in_char(); s[n] = 0; }
#define V_IS_CBMC 1

#else
/* ---------------------------------------------------------------- native */
#include <stdio.h>
#include <stdlib.h>
extern void v_fail(const char* kind, const char* msg, const char* file, int line);
extern void v_end(int code);
#define ASSUME(c)        do { if (!(c)) v_end(77); } while (0)
#define ENSURES(c, msg)  do { if (!(c)) v_fail("ensures: ", msg, __FILE__, __LINE__); } while (0)
#define REQUIRES(c, msg) do { if (!(c)) v_fail("requires: ", msg, __FILE__, __LINE__); } while (0)
#define PROBE(name)      ((void)0)
#define END()            v_end(0)
extern long v_input(int kind, long lo, long hi);
extern void v_input_str(char* s, int n, const char* hint);
static inline unsigned char in_uchar(void) { return (unsigned char) v_input(8, 0, 255); }
static inline char  in_char(void)  { return (char) in_uchar(); }
static inline int   in_int(void)   { return (int) v_input(32, 0, 0); }
static inline long  in_long(void)  { return v_input(64, 0, 0); }
static inline int   in_bool(void)  { return (int) v_input(1, 0, 1); }
static inline int   in_range(int lo, int hi) { return (int) v_input(0, lo, hi); }
static inline void  in_str(char* s, int n, const char* hint) { v_input_str(s, n, hint); }
#define V_IS_CBMC 0
#endif

extern void harness(void);
#endif
