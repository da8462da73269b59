/* Contract of the byte, word, swapped word and long directives: for every item
   in order the low 8, 16 or 32 bits of its value in the byte order of the
   processor; an item that is no number ends the statement with an error. */
#include "hand.h"
struct dcase { const char* dir; int kind; const char* oper; short n; const char* item[MAXITEM]; };
/* n < 0: the list is malformed behind -n-1 items */
#define LISTS(d, k) \
  { d, k, "q", 1, { "q" } }, { d, k, "q,w", 2, { "q", "w" } }, { d, k, "q , w", 2, { "q", "w" } }, { d, k, "q,\tw ,(v)", 3, { "q", "w", "(v)" } }, \
  { d, k, "'a,b',q", 2, { "'a,b'", "q" } }, { d, k, "\"'\\\",\",q+(1,2)", 2, { "\"'\\\",\"", "q+(1,2)" } }, { d, k, "a,b,c,d,e", 5, { "a", "b", "c", "d", "e" } }, \
  { d, k, "q,", -2, { "q" } }, { d, k, ",q", -1, { 0 } }, { d, k, "q,,w", -2, { "q" } }, { d, k, 0, -1, { 0 } }
static const struct dcase cases[] = {
  LISTS("DB", 1), LISTS("DDB", 2), LISTS("DW", 3), LISTS("DL", 4)
};
#define NCASES ((int) (sizeof cases / sizeof *cases))
static unsigned char want[MAXITEM * 4];
static int nwant, got, itemerr;

void h_on_error(void)
{
  ENSURES(itemerr, "a list of numbers is accepted");
  ENSURES(got == nwant, "the items in front of the wrong one are generated");
}
void h_on_byte(unsigned char b)
{
  ENSURES(got < nwant, "no more bytes than the items have");
  if (got < nwant) ENSURES(want[got] == b, "each item gives the low bits of its value in the documented byte order");
  got++;
}
static void put(int k, int kind)
{
  unsigned long v = (unsigned long) h_val[k];
  int lohi = asmflags & F_LOHI ? 1 : 0, w = kind == 1 ? 1 : kind == 4 ? 4 : 2, j;
  if (kind == 2) lohi = !lohi;
  for (j = 0; j < w; j++) want[nwant + j] = lohi ? (unsigned char) (v >> 8 * j) : (unsigned char) (v >> 8 * (w - 1 - j));
  nwant += w;
}
static char buf[32];
static void run(const struct dcase* c)
{
  struct label* l = h_find(c->dir);
  int k, n = c->n < 0 ? -c->n - 1 : c->n, flags0;
  for (k = 0; k < n; k++) h_item[k] = c->item[k];
  h_items(n);
  itemerr = c->n < 0;
  if (in_bool())   /* one item is no number */
  {
    int bad = n ? in_range(0, n - 1) : 0;
    for (k = 0; k < n; k++)
    {
      if (k == bad) { ASSUME(h_type[k] != L_ABSOLUTE); break; }
      h_type[k] = L_ABSOLUTE;
      put(k, c->kind);
    }
    itemerr = 1;
  }
  else for (k = 0; k < n; k++) { h_type[k] = L_ABSOLUTE; put(k, c->kind); }
  for (k = 0; c->oper && c->oper[k]; k++) buf[k] = c->oper[k];
  buf[k] = 0;
  flags0 = asmflags;
  ENSURES(l && l->type == L_MNEMO && l->ptr && !(l->flags & (DEFLABEL | DEFMACRO | DEFCOND | NOLABEL | UNDEF)), "the directive is known");
  (*l->ptr)((int) l->modifier, (char*) 0, l->name, c->oper ? buf : (char*) 0);
  ENSURES(!itemerr, "a malformed or wrongly typed item is an error");
  ENSURES(got == nwant, "all items are generated");
  ENSURES(asmflags == flags0, "the byte order of the processor is restored");
  PROBE("done");
}
void harness(void)
{
  int pick = in_range(0, NCASES - 1), i;
  asmflags = in_int();
  pc = in_long(); advance = 0; got = nwant = 0;
  for (i = 0; i < NCASES; i++)
    if (pick == i) { run(&cases[i]); END(); }
}
