/* Contract of ASC for every string a line can hold.  Ghost arrays give for every
   prefix of the operand how many bytes it denotes; The byte denoted at one arbitrary
   position is compared. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#ifndef N
#define N 249
#endif
extern int advance, asmflags;
char g_text[N + 2];
int g_missing, g_len, g_out, g_cnt;                /* g_out: bytes so far */
int g_p, g_k; unsigned char g_pb;       /* an arbitrary position, the number and value of the byte denoted there */
unsigned char g_nout[N + 3];
unsigned char g_st[N + 3];              /* before character i: 0 in the string, 1 behind a backslash, 2 behind the closing quote, 3 malformed, 4 at the start */
void error(char* s)
{
  ENSURES(g_missing || g_st[g_len] != 2, "a well formed string is accepted");
  ENSURES(g_out <= g_cnt, "no byte too many");
  PROBE("refused");
  END();
}
void insert8(unsigned char b)
{
  if (g_out == g_k) ENSURES(b == g_pb, "the bytes are the characters of the string, escapes replaced");
  g_out++;
}
static int esc(char c)
{
  switch (c)
  {
  case 't': return 9;
  case 'n': return 10;
  case 'r': return 13;
  case '0': return 0;
  case '\'': case '"': case '\\': return c;
  }
  return -1;
}
static void step(int i)
{
  char c = g_text[i];
  int st = g_st[i], st1 = 3, n1 = g_nout[i];
  int b = -1;
  switch (st)
  {
  case 4: st1 = c == '\'' || c == '"' ? 0 : 3; break;
  case 0:
    if (c == g_text[0]) st1 = 2;
    else if (c == '\\') st1 = 1;
    else { st1 = 0; b = (unsigned char) c; }
    break;
  case 1:
    if (esc(c) >= 0) { st1 = 0; b = (unsigned char) esc(c); }
    break;
  }
  if (b >= 0)
  {
    if (i == g_p) { g_k = n1; g_pb = (unsigned char) b; }
    n1++;
  }
#ifdef VNATIVE
  g_st[i + 1] = st1; g_nout[i + 1] = n1;
#else
  ASSUME(g_st[i + 1] == st1 && g_nout[i + 1] == n1);
#endif
}
extern int Xasc(int modifier, char* label, char* mnemo, char* oper);
void harness(void)
{
  int i;
  g_len = in_range(0, N);
  in_str(g_text, N, "ab'\"\\tn0 \\'\"");
  for (i = 0; i < N; i++) if (i < g_len) ASSUME(g_text[i] != 0);
  g_text[g_len] = 0;
#ifdef VNATIVE
  g_text[g_len] = 0; for (g_len = 0; g_text[g_len]; g_len++);
#endif
#ifndef VNATIVE
  for (i = 0; i < N + 3; i++) { g_st[i] = in_uchar(); g_nout[i] = in_uchar(); }
#endif
  g_st[0] = 4; g_nout[0] = 0; g_out = 0;
  g_p = in_range(0, N - 1); g_k = -1;
  for (i = 0; i < N; i++) step(i);
#ifndef VNATIVE
  /* lemma: positions that denote a byte have different numbers (g_nout never
     decreases and grows behind each of them) */
  for (i = 0; i < N; i++) ASSUME(i == g_p || g_nout[i + 1] == g_nout[i] || g_k != g_nout[i]);
#endif
  g_cnt = g_nout[g_len];
  g_missing = in_bool();
  if (g_missing) { Xasc(0, 0, "ASC", 0); ENSURES(0, "a missing operand is refused"); END(); }
  Xasc(0, 0, "ASC", g_text);
  ENSURES(g_st[g_len] == 2, "a malformed string is refused");
  ENSURES(g_out == g_cnt, "every character of the string gives one byte");
  PROBE("done");
}
