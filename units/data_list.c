/* Data lists of any length: Xdc() with the list abstracted to its items.
   filter() by contract: it splits a list of more than one item behind the first. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#include <stdarg.h>
#ifndef MAXN
#define MAXN 125          /* a line has at most 249 characters */
#endif
extern int advance, asmflags, passnumber;
extern unsigned long pc;
static char rest[MAXN + 1], single[MAXN + 1];   /* rest[i]: the list from item i on; single[i]: item i */
static int n, next, bytes;
static unsigned long cur;
static struct result R;
void error(char* s) { ENSURES(0, "a list of numbers is accepted"); END(); }
void warning(char* s) {}
int filter(char* s, char* pat, ...)
{
  va_list ap;
  char** a, ** b;
  int i = (int) (s - rest);
  REQUIRES(pat[0] == '?' && pat[1] == '_' && pat[2] == ',' && pat[3] == '_' && pat[4] == '?' && !pat[5], "lists are split at commas");
  REQUIRES(i == next, "the remainder of the list is split next");
  if (i >= n - 1) return 0;
  va_start(ap, pat);
  a = va_arg(ap, char**); b = va_arg(ap, char**);
  *a = single + i; *b = rest + i + 1;
  va_end(ap);
  return 1;
}
struct result* parse(char* s)
{
  ENSURES(bytes == 0, "every item is generated before the next is evaluated");
  ENSURES(next < n && (s == single + next || (next == n - 1 && s == rest + next)), "the items are taken in order");
  next++;
  cur = (unsigned long) in_long();
  bytes = WIDTH;
  R.value = (long) cur; R.type = L_ABSOLUTE; R.flags = 0; R.modifier = 0; R.ptr = 0;
  return &R;
}
void checktype(struct result* r, int type) { REQUIRES(type == L_ABSOLUTE && r->type == L_ABSOLUTE, "items have to be numbers"); }
void insert8(unsigned char b) { ENSURES(WIDTH == 1 && bytes == 1 && b == (unsigned char) cur, "the low byte"); bytes = 0; }
void insert16(unsigned short w)
{ ENSURES(WIDTH == 2 && bytes == 2 && w == (unsigned short) cur && !(asmflags & F_LOHI) == (MOD == 2), "the low word in the byte order of the directive"); bytes = 0; }
void insert32(unsigned int w) { ENSURES(WIDTH == 4 && bytes == 4 && w == (unsigned int) cur, "the low 32 bits"); bytes = 0; }
extern int Xdc(int modifier, char* label, char* mnemo, char* oper);
void harness(void)
{
  n = in_range(1, MAXN);
  asmflags = F_LOHI;
  next = bytes = 0;
  Xdc(MOD, 0, "DB", rest);
  ENSURES(next == n && bytes == 0, "every item of the list is generated");
  PROBE("done");
}
