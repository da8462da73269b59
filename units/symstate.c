/* Definedness of one symbol over both passes: from any state a history can
   reach (the invariant INV relates the symbol table entry to what happened so
   far), every operation has the effect the language promises and keeps INV.
   searchlabel() and makelabel() by contract (verified in symtab.c). */
#include "dcl.h"
#include "label.h"
#include "verif.h"
extern int asmflags, passnumber, macrolevel, lpos;
extern void cstlabel(struct result*, char*);
static struct label e;        /* the entry of the symbol */
static int present;
/* what happened: def 0 not yet defined in this pass, 1 at an address, 2 assigned;
   def1 the same for pass 1 as a whole; ref: referenced in pass 1 before its first definition */
static int pass_, def, def1, ref;
static long cur, val1;
static int op, expect_error, in_op;
static struct result R, P;
static long newval;
static const char* NAME = "sym";

struct label* searchlabel(char* n) { REQUIRES(n[0] == 's', "the name of the statement is looked up"); return present ? &e : 0; }
struct label* makelabel(char* n, unsigned char flags, unsigned char type)
{
  REQUIRES(!present, "only absent names are created");
  present = 1;
  e.left = e.right = 0; e.flags = flags; e.type = type; e.value = 0; e.modifier = 0; e.ptr = 0;
  return &e;
}
struct result* parse(char* s) { P.value = newval; return &P; }
void outputaddr(unsigned long a) {}
void position(int n) {}
void warning(char* s) {}
void fatal(char* s) { ENSURES(0, "no fatal error"); END(); }
static int inv(void)
{
  int f = e.flags;
  if (!present) return !def && !(pass_ == 1 ? ref : def1 || ref);
  if (f & ~(UNDEF | FORWARD | USED | NOREDEF)) return 0;
  if (pass_ == 1)
  {
    if (!def) return ref && (f & (UNDEF | FORWARD | NOREDEF)) == (UNDEF | FORWARD | NOREDEF);
    if (f & UNDEF) return 0;
    if (ref && (f & (FORWARD | NOREDEF)) != (FORWARD | NOREDEF)) return 0;
    if (def == 1) return (f & NOREDEF) && !(f & FORWARD) == !ref && e.value == cur && e.type == L_ABSOLUTE;
    return !(f & NOREDEF) == !ref && e.value == cur;
  }
  if (!(f & NOREDEF) != !(ref || def1 == 1 || def == 1)) return 0;
  if (!def)
  {
    if (!(f & UNDEF)) return 0;
    if (!(f & FORWARD) != !(ref && def1)) return 0;
    return !(ref && def1) || e.value == val1;
  }
  if (f & UNDEF) return 0;
  if (ref && def1 && !(f & FORWARD)) return 0;
  return e.value == cur && (def == 2 || e.type == L_ABSOLUTE);
}
void error(char* s)
{
  ENSURES(in_op && expect_error, "a first definition, a new assignment and a reference to a defined symbol are accepted");
  if (op != 2) ENSURES(inv(), "a refused definition leaves the symbol as it was");
  PROBE("refused");
  END();
}
void harness(void)
{
  int f;
  /* any reachable state */
  present = in_bool(); pass_ = in_range(1, 2); passnumber = pass_;
  def = in_range(0, 2); def1 = in_range(0, 2); ref = in_bool(); cur = in_long(); val1 = in_long();
  e.flags = (byte) in_uchar(); e.type = (byte) in_range(3, 6); e.value = in_long(); e.modifier = (short) in_int();
  asmflags = in_int() & ~F_RELATIF; macrolevel = in_range(0, 1); lpos = in_range(0, 1);
  lroot = present ? &e : 0;
  if (pass_ == 1) ASSUME(def1 == 0);
  if (pass_ == 2) ASSUME(def == 0 || def1 != 0);  /* both passes see the same statements */
  ASSUME(inv());
  op = in_range(0, 3);
  newval = in_long();
  P.type = in_bool() ? L_ABSOLUTE : L_DIRECTBIT; P.modifier = (short) in_int(); P.ptr = 0;
  P.flags = (in_bool() ? FORWARD | (in_bool() ? UNDEF : 0) : 0) | (in_bool() ? USED : 0) | (in_bool() ? NOREDEF : 0);
  in_op = 1;
  switch (op)
  {
  case 0:      /* a label at an address */
    if (pass_ == 2) ASSUME(def1 != 0);
    expect_error = def != 0;
    deflabel("sym", NOREDEF, L_ABSOLUTE, newval);
    ENSURES(!expect_error, "a symbol is defined at an address once only");
    def = 1; cur = newval;
    PROBE("label");
    break;
  case 1:      /* an assignment */
    if (pass_ == 2) ASSUME(def1 != 0);
    expect_error = def == 1 || (def == 2 && (ref || (pass_ == 2 && (def1 == 1))));
    f = P.flags;
    Xequ(0, "sym", "EQU", "x");
    ENSURES(!expect_error, "a label, and a symbol used before its assignment, are not assigned again");
    def = 2; cur = newval;
    ENSURES(e.modifier == P.modifier && e.type == P.type, "a symbol has the kind of its last value");
    PROBE("assigned");
    break;
  case 2:      /* a reference */
    if (pass_ == 2) ASSUME(present);
    expect_error = pass_ == 2 && !def && !(ref && def1);
    cstlabel(&R, "sym");
    ENSURES(!expect_error, "a reference to a symbol that is not defined is an error in the final pass");
    if (pass_ == 1 && !def) ref = 1;
    if (def) ENSURES(R.value == cur && R.type == e.type, "a reference yields the last value given to the symbol");
    if (pass_ == 2 && !def) ENSURES(R.value == val1, "a reference to a symbol defined further on yields the value of the first pass");
    if (pass_ == 1 && !def) ENSURES((R.flags & (UNDEF | FORWARD)) == (UNDEF | FORWARD), "in the first pass it is a forward reference");
    if (pass_ == 2 && ref && def1) ENSURES(R.flags & FORWARD, "a symbol that was a forward reference stays one");
    ENSURES(e.flags & USED, "a reference marks the symbol as used");
    PROBE("referenced");
    break;
  default:     /* the second pass begins */
    ASSUME(pass_ == 1);
    undeflabels(lroot);
    def1 = def; def = 0; val1 = cur; pass_ = 2;
    PROBE("second pass");
  }
  ENSURES(inv(), "the table entry tells exactly what happened to the symbol");
}
