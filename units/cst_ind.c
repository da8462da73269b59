/* Contracts of the constant evaluators for every text a line can hold, by loop
   invariant.  Ghost arrays give, for every prefix of the text, its value and
   whether it is still a constant of the notation; they are constrained by the
   positional recurrence.  The loop contract (registry.py) says that the real
   loop, having consumed a prefix, holds the value of that prefix. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#define K_DEC 1
#define K_HEX 2
#define K_OCT 3
#define K_BIN 4
#define K_ASC 5
#define N 249

extern void cstdecimal(struct result*, char*), csthexa(struct result*, char*), cstoctal(struct result*, char*),
  cstbinary(struct result*, char*), cstascii(struct result*, char*);

char g_text[N + 1];
int g_len;
unsigned g_val[N + 2];             /* value of the first i characters */
unsigned char g_st[N + 2];         /* 0 fine, 1 behind a backslash, 2 complete, 3 no constant */
static struct result R;

void error(char* s)
{
  ENSURES(g_st[g_len] == 3 || (KIND == K_ASC && g_st[g_len] != 2), "a well formed constant of at most 32 bits is accepted");
  PROBE("refused");
  END();
}
static int digit(char c)
{
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return 99;
}
static void step(int i)            /* the recurrence, as an assumption about the ghost arrays */
{
  char c = g_text[i];
  unsigned long v = g_val[i];
  unsigned char st = g_st[i];
#if KIND == K_ASC
  int ch = -1;
  if (st == 0)
  {
    if (c == g_text[0]) st = 2;
    else if (c < 32 || c > 126) st = 3;
    else if (c == '\\') st = 1;
    else ch = c;
  }
  else if (st == 1)
  {
    st = 0;
    switch (c)
    {
    case 't': ch = 9; break;
    case 'n': ch = 10; break;
    case 'r': ch = 13; break;
    case '0': ch = 0; break;
    case '"': case '\'': case '\\': ch = c; break;
    default: st = 3;
    }
  }
  else st = 3;
  if (ch >= 0)
  {
    if (v > 0xffffffUL) st = 3;
    v = v << 8 | (unsigned long) ch;
  }
#else
  int d = digit(c);
  const int base = KIND == K_DEC ? 10 : KIND == K_HEX ? 16 : KIND == K_OCT ? 8 : 2;
  if (d >= base) st = 3;
  v = KIND == K_DEC ? (v << 3) + (v << 1) + d : v * base + d;
  if (v > 0xffffffffUL) st = 3;
#endif
  if (st == 3) v = 0;
  ASSUME(g_val[i + 1] == (unsigned) v && g_st[i + 1] == st);
}
void harness(void)
{
  int i;
  g_len = in_range(0, N);
  for (i = 0; i < N; i++) { g_text[i] = in_char(); if (i < g_len) ASSUME(g_text[i] != 0); }
  g_text[N] = 0;
  ASSUME(g_text[g_len] == 0);
  for (i = 0; i < N + 2; i++) { g_val[i] = (unsigned) in_int(); g_st[i] = in_uchar(); }
#if KIND == K_ASC
  ASSUME(g_text[0] == '"' || g_text[0] == '\'');
  ASSUME(g_val[1] == 0 && g_st[1] == 0);
  for (i = 1; i < N; i++) step(i);
#else
  ASSUME(g_val[0] == 0 && g_st[0] == 0);
  for (i = 0; i < N; i++) step(i);
#endif
  R.flags = in_char(); R.type = in_char(); R.modifier = (short) in_int(); R.value = in_long();
#if KIND == K_DEC
  cstdecimal(&R, g_text);
#elif KIND == K_HEX
  csthexa(&R, g_text);
#elif KIND == K_OCT
  cstoctal(&R, g_text);
#elif KIND == K_BIN
  cstbinary(&R, g_text);
#else
  cstascii(&R, g_text);
#endif
  ENSURES(g_st[g_len] == (KIND == K_ASC ? 2 : 0), "digits outside the base, unknown escapes, trailing text and values above 32 bits are refused");
  ENSURES((unsigned long) R.value == g_val[g_len], "the value is that of the digits in their base");
  ENSURES(R.type == L_ABSOLUTE && R.flags == 0, "a constant is an absolute, defined number");
  ENSURES(R.modifier == 0 && R.ptr == 0, "a constant is no bit reference");
  PROBE("accepted");
}
