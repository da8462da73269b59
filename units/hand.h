/* Environment of a directive handler: expressions, code bytes and messages by
   contract.  parse() knows the item names of the case and yields any result for
   each; insert8() compares with the bytes the case expects, in order. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#include "filter_stub.h"
#ifndef VNATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
#define MAXITEM 6
extern unsigned long pc;
extern int advance, asmflags, passnumber;
static const char* h_item[MAXITEM];    /* texts of the expressions of this operand */
static int h_nitem;
static long h_val[MAXITEM];
static int h_type[MAXITEM], h_flags[MAXITEM], h_mod[MAXITEM];
static struct result h_res;
static int h_warned, h_done;

extern void h_on_error(void);          /* the unit says when a refusal is right */
extern void h_on_byte(unsigned char b);
void warning(char* s) { h_warned++; }
void error(char* s) { h_on_error(); PROBE("refused"); END(); }
void fatal(char* s) { ENSURES(0, "no fatal error"); END(); }
void insert8(unsigned char b) { h_on_byte(b); pc++; advance++; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char* a, const char* b)
{
  int i;
  for (i = 0; low(a[i]) == low(b[i]); i++) if (!a[i]) return 1;
  return 0;
}
struct result* parse(char* s)
{
  int k;
  if (!s || !*s) error("expression expected");
  for (k = 0; k < h_nitem; k++)
    if (same(s, h_item[k]))
    {
      h_res.value = h_val[k]; h_res.type = h_type[k]; h_res.flags = h_flags[k]; h_res.modifier = h_mod[k]; h_res.ptr = 0;
      return &h_res;
    }
  ENSURES(0, "the operand is taken apart at its separators");
  END();
  return &h_res;
}
static void h_items(int n)
{
  int k;
  h_nitem = n;
  for (k = 0; k < n; k++)
  {
    h_val[k] = in_long();
    h_type[k] = in_bool() ? L_ABSOLUTE : in_bool() ? L_REGS : in_bool() ? L_DIRECTBIT : L_MACRO;
    h_flags[k] = in_bool() ? FORWARD | (in_bool() ? UNDEF : 0) : 0;
    h_mod[k] = 0;
  }
}
#ifndef NOVOCAB
static struct label* h_find(const char* n)
{
  struct label* p;
  extern struct label pseudos[];
  for (p = pseudos; p->left != (struct label*) -1; p++)
    if (low(p->name[0]) == low(n[0]) && same(p->name, n)) return p;
  return 0;
}
#endif
#ifndef VNATIVE
#pragma CPROVER check pop
#endif
