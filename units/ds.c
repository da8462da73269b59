/* The forms of the storage directive, sizes up to 5 (ds_loop.c: every size). */
#include "hand.h"
struct dcase { const char* oper; short n; const char* item[2]; };   /* item 0 the size, item 1 the fill value */
static const struct dcase cases[] = {
  { "q", 1, { "q" } }, { "q,w", 2, { "q", "w" } }, { "q , w", 2, { "q", "w" } }, { "(q,1)\t,w", 2, { "(q,1)", "w" } },
  { ",q", -1, { "q" } }, { "q,", -1, { "q" } }, { 0, 0, { 0 } },
};
#define NCASES ((int) (sizeof cases / sizeof *cases))
long g_n, g_total;
unsigned char g_fill;
static int err_ok;
void h_on_error(void) { ENSURES(err_ok, "a size and a fill value are accepted"); }
void h_on_byte(unsigned char b)
{
  ENSURES(b == g_fill, "every byte is the fill value");
  g_n++;
}
static char buf[32];
static void run(const struct dcase* c)
{
  struct label* l = h_find("DS");
  int k, n = c->n < 0 ? -c->n : c->n;
  for (k = 0; k < n; k++) h_item[k] = c->item[k];
  h_items(n);
  err_ok = c->n <= 0;
  for (k = 0; k < n; k++) if (h_type[k] != L_ABSOLUTE) err_ok = 1;
  if (n) { if (h_val[0] < 0 || (h_flags[0] & UNDEF && h_flags[0] & FORWARD)) err_ok = 1; ASSUME(h_val[0] >= -0x7fffffffL && h_val[0] <= 0x7fffffffL); }
  if (n > 1) ASSUME(h_val[1] >= -0x80000000L && h_val[1] <= 0xffffffffL);
  ASSUME(h_val[0] <= 5);
  g_n = 0; g_total = n ? h_val[0] : 0;
  g_fill = n > 1 ? (unsigned char) h_val[1] : 0;
  for (k = 0; c->oper && c->oper[k]; k++) buf[k] = c->oper[k];
  buf[k] = 0;
  (*l->ptr)((int) l->modifier, (char*) 0, l->name, c->oper ? buf : (char*) 0);
  ENSURES(!err_ok, "a malformed, negative, forward or wrongly typed operand is an error");
  ENSURES(g_n == g_total, "the requested number of bytes is generated");
  ENSURES(advance == g_total, "the address advances by the number of bytes");
  PROBE("done");
}
void harness(void)
{
  int pick = in_range(0, NCASES - 1), i;
  asmflags = in_int();
  pc = in_long() & 0xffffffff; advance = 0;
  for (i = 0; i < NCASES; i++)
    if (pick == i) { run(&cases[i]); END(); }
}
