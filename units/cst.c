/* Contracts of the constant evaluators, for every text a line can hold. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#define K_DEC 1
#define K_HEX 2
#define K_OCT 3
#define K_BIN 4
#define K_ASC 5
#ifndef N
#define N 249
#endif

extern void cstdecimal(struct result*, char*), csthexa(struct result*, char*), cstoctal(struct result*, char*),
  cstbinary(struct result*, char*), cstascii(struct result*, char*);

static char text[N + 1], copy[N + 1];
static struct result R;
static int bad;                   /* the text is no constant of this notation */
static unsigned long value;       /* else its value, when it is below 2^32 */

void error(char* s)
{
  ENSURES(bad, "a well formed constant of at most 32 bits is accepted");
  PROBE("refused");
  END();
}

#if KIND == K_ASC
static void oracle(void)
{
  int i, state = 0;               /* 0 inside, 1 behind a backslash, 2 after the end */
  char d = text[0];
  bad = 0; value = 0;
  for (i = 1; i <= N; i++)
  {
    char c = text[i];
    int ch = 0, have = 0;
    if (state == 3) continue;
    if (c == 0)
    {
      if (state != 2) bad = 1;
      state = 3;
      continue;
    }
    if (state == 2) { bad = 1; state = 3; continue; }
    if (state == 0)
    {
      if (c == d) state = 2;
      else if (c < 32 || c > 126) { bad = 1; state = 3; }
      else if (c == '\\') state = 1;
      else { ch = c; have = 1; }
    }
    else
    {
      have = 1; state = 0;
      switch (c)
      {
      case 't': ch = 9; break;
      case 'n': ch = 10; break;
      case 'r': ch = 13; break;
      case '0': ch = 0; break;
      case '"': case '\'': case '\\': ch = c; break;
      default: bad = 1; state = 3; have = 0;
      }
    }
    if (have)
    {
      if (value >> 24) { bad = 1; value = 0; }
      value = value * 256 + (unsigned long) ch;
    }
  }
}
#else
static void oracle(void)
{
  int i, end = 0;
  unsigned base = KIND == K_DEC ? 10 : KIND == K_HEX ? 16 : KIND == K_OCT ? 8 : 2;
  bad = 0; value = 0;
  for (i = 0; i < N; i++)
  {
    char c = text[i];
    unsigned d = 99;
    if (c == 0) end = 1;
    if (end) continue;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
    if (d >= base) { bad = 1; end = 1; continue; }
    value = value * base + d;
    if (value > 0xffffffffUL) { bad = 1; value = 0; }
  }
}
#endif

void harness(void)
{
  int i;
  in_str(text, N, KIND == K_ASC ? "ab\\\"'tnr0\\" : KIND == K_BIN ? "01" : "0123456789abcdefABCDEF");
#if KIND == K_ASC
#ifdef VNATIVE
  text[0] = in_bool() ? '"' : '\'';
  { int n = in_range(1, 8); if (in_bool()) { text[n] = text[0]; text[n + 1] = 0; } }
#endif
  ASSUME(text[0] == '"' || text[0] == '\'');          /* as the caller checked */
#endif
  for (i = 0; i <= N; i++) copy[i] = text[i];
  R.flags = in_char(); R.type = in_char(); R.modifier = (short) in_int(); R.value = in_long();
  R.ptr = in_bool() ? (int (*)()) harness : 0;
  oracle();
#if KIND == K_DEC
  cstdecimal(&R, text);
#elif KIND == K_HEX
  csthexa(&R, text);
#elif KIND == K_OCT
  cstoctal(&R, text);
#elif KIND == K_BIN
  cstbinary(&R, text);
#else
  cstascii(&R, text);
#endif
  ENSURES(!bad, "digits outside the base, unknown escapes, trailing text and values above 32 bits are refused");
  ENSURES((unsigned long) R.value == value, "the value is that of the digits in their base");
  ENSURES(R.type == L_ABSOLUTE && R.flags == 0, "a constant is an absolute, defined number");
  ENSURES(R.modifier == 0 && R.ptr == 0, "a constant is no bit reference");
  for (i = 0; i <= N; i++) ENSURES(text[i] == copy[i], "the text is not changed");
  PROBE("accepted");
}
