/* The name looked up: upper case, at most 48 characters, local names (leading
   dot) prefixed with the number of the section.  checklabel() accepts exactly
   the documented names. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#ifndef NL
#define NL 52
#endif
extern int segment;
static struct label N;
static char name[NL + 1], want[LABLEN + 12];
static int len, k, called;
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int mark(int c) { return c == '_' || c == '.'; }
static int check(const char* a, size_t n)
{
  REQUIRES(n == LABLEN, "all characters of the names are compared");
  called = 1;
  ENSURES(a[k] == want[k], "names are compared without case, in 48 characters, local ones with their section");
  return 0;
}
int v_strncmp(const char* a, const char* b, size_t n) { return check(a, n); }
#ifndef VNATIVE
int strncmp(const char* a, const char* b, size_t n) { return check(a, n); }
#endif
void fatal(char* s) { END(); }
#ifdef LOCAL
#define FIRST(i) ((i) == 0)
#else
#define FIRST(i) 0
#endif
static int seg, digits;
static char dig[6];
#ifndef LOCAL
static const int lens[] = { 0, 1, 2, 17, 47, 48, 49, 52 };
#endif
#if !defined(VNATIVE) && !defined(CHECK)
#include <stdarg.h>
/* the number of the section in decimal; it has `digits` digits */
static int put(char* s, const char* f, int v)
{
  int i;
  REQUIRES(f[0] == '%' && f[1] == 'd' && f[2] == 0 && v == seg, "the number of the section is written");
  for (i = 0; i < digits; i++) s[i] = dig[i];
  s[i] = 0;
  return i;
}
int sprintf(char* s, const char* f, ...) { va_list a; int v; va_start(a, f); v = va_arg(a, int); va_end(a); return put(s, f, v); }
int snprintf(char* s, size_t n, const char* f, ...) { va_list a; int v; va_start(a, f); v = va_arg(a, int); va_end(a); REQUIRES(n > digits, "it fits"); return put(s, f, v); }
#endif
#ifndef CHECK
static void one(int n)
{
  int i, j = 0, d = 1;
  len = n;
  for (i = 0; i < n; i++) { name[i] = FIRST(i) ? '.' : in_char(); ASSUME(name[i] != 0); }
  name[n] = 0;
#ifdef LOCAL
  for (seg = 0, i = 0; i < digits; i++) { d = in_range(i == 0 && digits > 1, 9); seg = seg * 10 + d; want[j++] = dig[i] = '0' + d; }
  segment = seg;
#else
  if (n > 0) ASSUME(name[0] != '.');
#endif
  for (i = 0; i < NL && j < LABLEN; i++) { if (i >= len) break; want[j++] = (char) up(name[i]); }
  lroot = &N;
  k = in_range(0, LABLEN - 1);
  N.left = N.right = 0;
  ENSURES(searchlabel(name) == &N && called, "the first node is compared");
  PROBE("searched");
  END();
}
#endif
void harness(void)
{
  int i, ok, r, pick;
#ifdef CHECK
  in_str(name, NL, "abcXYZ019_.*");
  for (len = 0; len < NL && name[len]; len++) ;
  ok = len > 0 && len <= LABLEN && (letter(name[0]) || mark(name[0]));
  for (i = 1; i < NL; i++) if (i < len && !(letter(name[i]) || mark(name[i]) || (name[i] >= '0' && name[i] <= '9'))) ok = 0;
  if (name[0] == '*' && name[1] == 0) ok = 1;
  r = checklabel(name);
  ENSURES((r != 0) == (ok != 0), "labels are letters, digits, periods and underscores, at most 48, not led by a digit");
  PROBE("checked");
#else
  pick = in_range(0, NL);
#ifdef LOCAL
  digits = DIGITS;
  one(LENGTH);
#else
  for (i = 0; i < (int) (sizeof lens / sizeof *lens); i++) if (pick == lens[i]) one(lens[i]);
#endif
#endif
}
