/* ELSE, ENDC, ENDM and EXITM as single statements. */
#include "hand.h"
extern int macrolevel;
static int opd;
void outputline(void) {}
void h_on_error(void) { ENSURES(opd, "without operand they are accepted"); }
void h_on_byte(unsigned char b) { ENSURES(0, "no code"); }
void harness(void)
{
  int st = in_range(0, 3), w = in_range(0, 3), r, want;
  char* oper = in_bool() ? "x" : (char*) 0;
  int ml = macrolevel = in_range(0, 9);
  opd = oper != 0;
  asmflags = in_int();
  switch (w)
  {
  case 0: r = Xelse(st, 0, "ELSE", oper); want = 0x12; break;
  case 1: r = Xendc(st, 0, "ENDC", oper); want = 0x11; break;
  case 2: r = Xendm(st, 0, "ENDM", oper); want = ml && st & 2 ? 0x21 : 0; break;
  default: r = Xexitm(st, 0, "EXITM", oper); want = ml && st & 2 ? 0x22 : 0;
  }
  ENSURES(!opd, "an operand is refused");
  ENSURES(r == want, "the statement ends its block, in a macro call only while assembling");
  ENSURES(macrolevel == ml, "the nesting is unchanged");
  PROBE("done");
}
