/* Contract of the storage directive for every size (one operand): the loop by invariant. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
extern int advance, asmflags;
extern unsigned long pc;
long g_n, g_total;
unsigned char g_fill;
static char text[4];          /* text+1: the size, text+2: the fill value */
static int two, err_ok;
static struct result r1, r2, R;
void error(char* s) { ENSURES(err_ok, "a size and a fill value are accepted"); PROBE("refused"); END(); }
void warning(char* s) {}
void checktype(struct result* r, int type) { if (r->type != type) error(""); }
int filter(char* s, char* pat, ...)
{
  REQUIRES(s == text, "the operand is taken apart");
  return 0;      /* one operand; two operands: ds.c */
}
struct result* parse(char* s)
{
  ENSURES(s == text, "the size is evaluated");
  R = r1;
  return &R;
}
void insert8(unsigned char b)
{
  ENSURES(b == g_fill, "every byte is the fill value");
  g_n++; advance++; pc++;
}
static void any(struct result* r)
{
  r->value = in_long(); r->type = in_bool() ? L_ABSOLUTE : in_bool() ? L_REGS : L_DIRECTBIT;
  r->flags = in_bool() ? FORWARD | (in_bool() ? UNDEF : 0) : 0; r->modifier = 0; r->ptr = 0;
}
void harness(void)
{
  any(&r1); any(&r2);
  two = 0;
  pc = in_long(); advance = 0;
  ASSUME(r1.value >= -0x7fffffffL && r1.value <= 0x7fffffffL);
  ASSUME(r2.value >= -0x80000000L && r2.value <= 0xffffffffL);
#ifdef VNATIVE
  ASSUME(r1.value < 100000);
#endif
  err_ok = r1.type != L_ABSOLUTE || (two && r2.type != L_ABSOLUTE) || r1.value < 0 || ((r1.flags & UNDEF) && (r1.flags & FORWARD));
  g_n = 0; g_total = r1.value;
  g_fill = two ? (unsigned char) r2.value : 0;
  Xds(0, 0, "DS", text);
  ENSURES(!err_ok, "a negative, forward or wrongly typed operand is an error");
  ENSURES(g_n == g_total, "the requested number of bytes is generated");
  ENSURES(advance == g_total, "the address advances by the number of bytes");
  PROBE("done");
}
