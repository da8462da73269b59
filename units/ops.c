/* Contracts of the expression operators and of checktype.
   error() ends the statement; everything else is real code. */
#include "dcl.h"
#include "label.h"
#include "verif.h"

extern void opadd(struct result*, struct result*), opsub(struct result*, struct result*), opmul(struct result*, struct result*),
  opdiv(struct result*, struct result*), oprlist(struct result*, struct result*), opor(struct result*, struct result*),
  opand(struct result*, struct result*), opxor(struct result*, struct result*), oplsh(struct result*, struct result*),
  oprsh(struct result*, struct result*), opbit(struct result*, struct result*);
extern void opminus(struct result*), opnot(struct result*);
extern void opbitnumb(struct result*, struct result*), opbitaddr(struct result*, struct result*), oplo(struct result*, struct result*), ophi(struct result*, struct result*);

#define ADD 1
#define SUB 2
#define MUL 4
#define DIV 5
#define OR_ 6
#define AND_ 7
#define XOR_ 8
#define SHL 9
#define SHR 10
#define RLIST 11
#define BIT 12
#define NEG 13
#define NOT_ 14
#define LO 15
#define HI 16
#define BADDR 17
#define BNUM 18
#define CHECK 19
#define DEFINED_BITS (UNDEF | FORWARD)

static struct result R, A, r0, a0;
static int must_fail, may_fail;

static int want;

void error(char* s)
{
  ENSURES(s != NULL, "an error has a message");
  ENSURES(must_fail || may_fail, "operands of the documented types are accepted");
  PROBE("operands refused");
  END();
}

static void any(struct result* r)
{
  r->flags = (byte) in_char();
  r->type = (byte) in_char();
  /* the kinds of values there are; nothing has type L_RELATIVE since no
     statement sets F_RELATIF */
#ifdef VNATIVE
  if (in_bool()) r->type = (byte)(OP == RLIST ? L_REGS : OP == BADDR || OP == BNUM ? L_DIRECTBIT : L_ABSOLUTE);
#endif
  ASSUME(r->type >= -1 && r->type <= 6 && r->type != L_RELATIVE);
  r->modifier = (short) in_int();
  r->ptr = NULL;
  r->value = in_long();
}

static int regbit(long v)       /* number of the single register in v, or -1 */
{
  int i, n = -1;
  for (i = 0; i < 31; i++) if (v == (1L << i)) n = i;
  return n;
}

void harness(void)
{
  unsigned long x, y, z;
  int abs1, abs2, reg1, reg2, bit1;
  any(&R); any(&A);
  r0 = R; a0 = A;
  x = (unsigned long) R.value; y = (unsigned long) A.value; z = 0;
  abs1 = R.type == L_ABSOLUTE; abs2 = A.type == L_ABSOLUTE;
  reg1 = R.type == L_REGS; reg2 = A.type == L_REGS;
  bit1 = R.type == L_DIRECTBIT;
  must_fail = 0; may_fail = 0;

#if OP == CHECK
  want = in_range(-1, 6);
  must_fail = R.type != want;
  checktype(&R, want);
  ENSURES(!must_fail, "another type is refused");
  ENSURES(R.type == r0.type && R.value == r0.value && R.flags == r0.flags && R.modifier == r0.modifier, "checking changes nothing");
  PROBE("checked");
#elif OP == NEG || OP == NOT_ || OP == LO || OP == HI || OP == BADDR || OP == BNUM
  must_fail = OP == BADDR || OP == BNUM ? !bit1 : !abs1;
#if OP == NEG
  z = 0 - x; opminus(&R);
#elif OP == NOT_
  z = x ^ 0xffffffffffffffffUL; opnot(&R);
#elif OP == LO
  z = x % 256; oplo(&R, &A);
#elif OP == HI
  z = x / 256 % 256; ophi(&R, &A);
#elif OP == BADDR
  z = x; opbitaddr(&R, &A);
#elif OP == BNUM
  z = (unsigned long)(long) r0.modifier; opbitnumb(&R, &A);
#endif
  ENSURES(!must_fail, "an operand of another type is refused");
  ENSURES((unsigned long) R.value == z, "the result is the 64 bit two's complement value");
  ENSURES(R.type == L_ABSOLUTE, "the result is a number");
  ENSURES(((R.flags ^ r0.flags) & DEFINED_BITS) == 0, "the result is as defined as the operand");
  if (OP == BADDR || OP == BNUM) ENSURES(R.modifier == 0, "the result is no bit reference");
  PROBE("computed");
#else
  {
    int lo = 0, hi = 0, type = L_ABSOLUTE, i;
    must_fail = !(abs1 && abs2);
    if (OP == RLIST) { must_fail = !(reg1 && reg2); type = L_REGS; }
    if (OP == SHL || OP == SHR) ASSUME(y <= 63 || !abs1 || !abs2);
    if (OP == BIT) { type = L_DIRECTBIT; if (A.value > 32) must_fail = 1; else if (A.value < 0) may_fail = 1; }
    if (OP == SUB && reg1 && reg2)
    {
      /* a register range a-b */
      type = L_REGS;
      ASSUME(R.value >= 0 && R.value <= 0x7fffffffL && A.value >= 0 && A.value <= 0x7fffffffL);
      lo = regbit(R.value); hi = regbit(A.value);
      must_fail = lo < 0 || hi < 0 || hi < lo;
    }
#if OP == ADD
    z = x + y; opadd(&R, &A);
#elif OP == SUB
    z = x - y; opsub(&R, &A);
#elif OP == MUL
    z = (unsigned long)(r0.value * a0.value); opmul(&R, &A);
#elif OP == DIV
    if (y + 1 == 0) z = 0 - x;
    else if (y != 0) z = (unsigned long)(r0.value / a0.value);
    opdiv(&R, &A);
#elif OP == OR_
    z = x | y; opor(&R, &A);
#elif OP == AND_
    z = x & y; opand(&R, &A);
#elif OP == XOR_
    z = (x | y) & ~(x & y); opxor(&R, &A);
#elif OP == SHL
    z = x << y; oplsh(&R, &A);
#elif OP == SHR
    z = (x >> y) | (r0.value < 0 && y > 0 ? ~(0xffffffffffffffffUL >> y) : 0); oprsh(&R, &A);
#elif OP == RLIST
    z = x | y; oprlist(&R, &A);
#elif OP == BIT
    z = x; opbit(&R, &A);
#endif
    ENSURES(!must_fail, "operands of other types are refused");
    ENSURES(R.type == type, "the result has the documented type");
    ENSURES((R.flags & DEFINED_BITS) == ((r0.flags | a0.flags) & DEFINED_BITS), "the result is defined only if both operands are");
    ENSURES(A.value == a0.value && A.type == a0.type, "the second operand is not changed");
#if OP == SUB
    if (type == L_REGS)
    {
      long m = 0;
      for (i = 0; i < 31; i++) if (i >= lo && i <= hi) m |= 1L << i;
      ENSURES(R.value == m, "a register range contains the registers from the first to the last");
      PROBE("register range");
    }
    else
#elif OP == DIV
    if (y == 0) PROBE("divided by zero"); else
#endif
      ENSURES((unsigned long) R.value == z, "the result is the 64 bit two's complement value");
    if (OP == BIT && a0.value >= 0) ENSURES(R.modifier == a0.value, "a bit reference holds its bit number");
    PROBE("computed");
  }
#endif
}
