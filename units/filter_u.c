/* Contract of filter() and zerobuffer(), per pattern, for all texts of at most N characters. */
#include "dcl.h"
#include "verif.h"
#include "filter_spec.h"
#ifndef N
#define N 8
#endif
#ifndef OFF
#define OFF 0
#endif
extern char* bufferpos;
extern char buffer[];
static char text[N + 1], copy[N + 1];
static char* out[4];
static struct fpiece pc_[4];
static const char pat[] = PAT;
static char pat2[sizeof pat];

/* the contract of filter_spec.h, by position: M[n][i] is where the pattern from
   n up to its next '?' or its end ends when it begins at i of the text, or NO */
#define NO 127
static signed char M[sizeof pat][N + 2];
static int up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int blank(char c) { return c == ' ' || c == '\t'; }
static int oracle(void)
{
  int n, i, p, np = 0, pos = 0, st, q, depth, esc, len;
  for (len = 0; text[len]; len++);
  for (n = sizeof pat - 1; n >= 0; n--)
    for (i = N; i >= 0; i--)
    {
      char c = text[i];
      if (i > len) M[n][i] = NO;
      else if (pat[n] == '?') M[n][i] = i;
      else if (pat[n] == 0) M[n][i] = c == 0 ? i : NO;
      else if (pat[n] == '_') M[n][i] = blank(c) ? M[n][i + 1] : M[n + 1][i];
      else M[n][i] = c != 0 && (up(pat[n]) == up(c) || (pat[n] == ' ' && c == '\t')) ? M[n + 1][i + 1] : NO;
    }
  pos = M[0][0];
  for (p = 0; pat[p] && pat[p] != '?'; p++);
  while (pat[p] == '?' && pos != NO)
  {
    p++;
    pc_[np].start = pos;
    if (pat[p] == 0) { pc_[np].end = len; pos = len; np++; break; }
    q = depth = esc = 0; st = 0;             /* st: 0 before, 1 inside, 2 found */
    for (i = 0; i <= N; i++)
    {
      char c = text[i];
      if (i == pos && st == 0) st = 1;
      if (st != 1) continue;
      if (!q && !depth && M[p][i] != NO) { pc_[np].end = i; pos = M[p][i]; st = 2; continue; }
      if (c == 0) { pos = NO; st = 2; continue; }
      if (esc) esc = 0;
      else if (q) { if (c == '\\') esc = 1; else if (c == q) q = 0; }
      else if (c == '\'' || c == '"') q = c;
      else if (c == '(') depth++;
      else if (c == ')') depth--;
    }
    np++;
    for (; pat[p] && pat[p] != '?'; p++);
  }
  return pos != NO;
}
void fatal(char* s) { ENSURES(0, "the pattern buffer has room"); END(); }
void harness(void)
{
  int i, j, n, want;
  char* before;
  in_str(text, N, "aAxXyYhHlL ,();'\"\\.=_\tm#@");
#ifdef ISNULL
  text[0] = 0;
#endif
  for (i = 0; i <= N; i++) copy[i] = text[i];
  for (i = 0; i < (int) sizeof pat; i++) pat2[i] = pat[i];
  zerobuffer();
  ENSURES(bufferpos == buffer, "the buffer is emptied");
  bufferpos = before = buffer + OFF;
  want = oracle();
#ifdef ISNULL
  n = filter((char*) 0, pat2, &out[0], &out[1], &out[2], &out[3]);
#else
  n = filter(text, pat2, &out[0], &out[1], &out[2], &out[3]);
#endif
  ENSURES((n != 0) == (want != 0), "a text matches exactly if it has the form of the pattern");
  for (i = 0; i <= N; i++) ENSURES(text[i] == copy[i], "the text is not changed");
  if (!n) { PROBE("no match"); END(); }
  for (i = 0; i < NPIECE; i++)
  {
    int len = pc_[i].end - pc_[i].start;
    ENSURES(out[i] > before && out[i] + len < bufferpos + 1, "the parts lie in the buffer behind those of earlier calls");
    ENSURES(i == 0 || out[i] > out[i - 1] + (pc_[i - 1].end - pc_[i - 1].start), "the parts do not overlap");
    for (j = 0; j < N; j++)
      if (j < len) ENSURES(out[i][j] == text[pc_[i].start + j], "the part is the exact text");
    ENSURES(out[i][len] == 0, "the part ends where it ends");
  }
  ENSURES(bufferpos - before <= N + (int) sizeof pat, "no more of the buffer is used than was tested for");
  PROBE("match");
}
