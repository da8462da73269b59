/* Contract of filter(), per pattern, for all texts up to the line length, by
   loop invariants at the cut points of filter.c.

   The contract is that of filter_spec.h, by continuation: M(n,i) says where the
   pattern from n up to its next '?' or its end is matched when it begins at i
   of the text (MISS: nowhere, SHORT: the text is too short); Q(i) is the quote
   and parenthesis state behind i characters, R(i) the first place from i on,
   outside quotes and parentheses, where the pattern behind the current '?'
   matches.  M, Q and R are ghost arrays; their defining recurrences are assumed
   at the places a loop iteration touches.
   An attempt that meets the end of the text decides that there is no match at
   any later place either; that this is the contract of filter_spec.h is checked
   for all texts up to a bound by units/filter_lemma.c.                       */
#include "dcl.h"
#include "verif.h"
#ifndef N
#define N 249
#endif
#define MISS -1
#define SHORT -2
#define PL ((int) sizeof pat - 1)
static char pat[] = PAT;
extern char* bufferpos;
extern char buffer[];
extern unsigned int chars_consumed_by_filter;
#define BUFSIZE ((long) __CPROVER_OBJECT_SIZE(buffer))

char text[N + 2];
int len;
short g_M[PL + 1][N + 3], g_R[4][N + 3];
int g_Q[4][N + 3];
int S[4], T[4], want;             /* the parts by contract */
static char* out[4];
static char* start;               /* bufferpos at the call */
static int phase;                 /* the position in the pattern this run is about */
static int gk, gi;                /* an arbitrary character of an arbitrary part */

int v_seen_main, v_seen_blanks, v_seen_rest;
char *v_s, *v_fil, *v_starts, *v_startf;
int v_quote, v_nargs;
static int n_, k_, w_;            /* at the cut: position, number of '?' before it, the last of them */

void fatal(char* s)
{
  ENSURES(len + PL + 1 > BUFSIZE - (start - buffer), "a text is refused only if the pattern buffer has no room");
  PROBE("refused");
  END();
}
unsigned long strlen(const char* s) { return s == pat ? PL : len; }

static int up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int blank(char c) { return c == ' ' || c == '\t'; }
static int step(int q, char c)
{
  int b = q & 7, d = q - b;
  if (b & 4) b &= ~4;
  else if (b)
  {
    if (c == '\\') b |= 4;
    else if (c == (b == 1 ? '\'' : '"')) b = 0;
  }
  else if (c == '\'') b = 1;
  else if (c == '"') b = 2;
  else if (c == '(') d += 8;
  else if (c == ')') d -= 8;
  return d + b;
}
/* the recurrences, at one place */
static void ax_M(int n, int i)
{
  char c = text[i], p = pat[n];
  int v;
  if (p == '?') v = i;
  else if (p == 0) v = c == 0 ? i : MISS;
  else if (p == '_') v = blank(c) ? g_M[n][i + 1] : g_M[n + 1][i];
  else if (c == 0) v = SHORT;
  else if (up(p) == up(c) || (p == ' ' && c == '\t')) v = g_M[n + 1][i + 1];
  else v = MISS;
  ASSUME(g_M[n][i] == v);
  ASSUME(v == MISS || v == SHORT || (v >= i && v <= len));
}
static int nextn(int n) { return pat[n] == '_' ? n : n + 1; }
static void ax_Q(int k, int i) { if (i < len) ASSUME(g_Q[k][i + 1] == step(g_Q[k][i], text[i])); ASSUME(g_Q[k][i] <= 8 * i + 7 && g_Q[k][i] >= -8 * i); }
/* first nonblank */
short g_B[N + 3];
static void ax_B(int i) { ASSUME(g_B[i] == (blank(text[i]) ? g_B[i + 1] : i)); ASSUME(g_B[i] >= i && g_B[i] <= len); }
static void ax_R(int k, int w, int i)
{
  int v, m = g_M[w + 1][i], e = pat[w + 1] == '_' ? g_B[i] : i;
  if (g_Q[k][i] == 0) v = m >= 0 ? i : m == SHORT || text[i] == 0 ? -1 : g_R[k][i + 1];
  else v = text[e] == 0 ? -1 : g_R[k][i + 1];
  ASSUME(g_R[k][i] == v);
  ASSUME(v == -1 || (v >= i && v <= len));
}
static int seg_end(int w) { return 0; }

static void where(int n)
{
  int i;
  n_ = n; k_ = 0; w_ = -1;
  for (i = 0; i < n; i++) if (pat[i] == '?') { k_++; w_ = i; }
}
/* the invariant; a: assert it, else assume it */
#define INV(c, msg) do { if (a) ENSURES(c, msg); else ASSUME(c); } while (0)
static int j_, i_;
static void parts(int a, int k)   /* what is known of the parts before part k */
{
  int q;
  for (q = 0; q < k; q++)
  {
    INV(S[q] >= 0 && T[q] >= S[q] && T[q] <= len, "inv: the parts so far are parts of the text");
    INV(q == 0 || out[q] == out[q - 1] + (T[q - 1] - S[q - 1]) + 1, "inv: the parts follow each other in the buffer");
    if (q == gk)
    {
      if (gi < T[q] - S[q]) INV(out[q][gi] == text[S[q] + gi], "inv: a part is the exact text");
      if (q < k - 1 || 0) INV(out[q][T[q] - S[q]] == 0, "inv: a part ends where it ends");
    }
  }
}
static void inv_main(int a, char* s, char* starts, char* startf, int quote)
{
  int k = k_, q;
  INV(__CPROVER_same_object(s, text) && s - text >= 0 && s - text <= len, "inv: the place is in the text");
  j_ = s - text;
  if (k == 0)
  {
    INV(startf == 0 && quote == 0, "inv: nothing is open before the first part");
    INV(bufferpos == start, "inv: the buffer is untouched before the first part");
    INV(g_M[n_][j_] == g_M[0][0], "inv: the pattern so far matched");
    i_ = 0;
    return;
  }
  INV(startf == pat + w_, "inv: the last ? is remembered");
  INV(__CPROVER_same_object(starts, text) && starts - text >= 0 && starts - text <= len, "inv: the part begins in the text");
  i_ = starts - text;
  INV(i_ <= j_, "inv: the place is behind the part");
  for (q = 0; q < k; q++) INV(S[q] >= 0 && S[q] <= len, "inv: the parts begin where the contract says");
  INV(S[k - 1] <= i_, "inv: the part grows");
  INV(g_R[k - 1][i_] == g_R[k - 1][S[k - 1]], "inv: no earlier place matches");
  INV(g_Q[k - 1][i_] == quote, "inv: quotes and parentheses are counted");
  if (quote == 0) INV(g_M[n_][j_] == g_M[w_ + 1][i_], "inv: the pattern behind the part matched so far");
  else INV(n_ == w_ + 1 ? j_ == i_ : n_ == w_ + 2 && pat[w_ + 1] == '_' && j_ == g_B[i_], "inv: in quotes only blanks are skipped");
  for (q = 0; q + 1 < k; q++)
    INV(T[q] >= S[q] && T[q] <= len && S[q + 1] >= T[q] && out[q + 1] == out[q] + (T[q] - S[q]) + 1, "inv: the parts follow each other in the buffer");
  INV(out[0] == start + 1, "inv: the first part begins the buffer");
  INV(bufferpos == out[k - 1] + (i_ - S[k - 1]), "inv: the part so far is in the buffer");
  if (gk < k - 1)
  {
    if (gi < T[gk] - S[gk]) INV(out[gk][gi] == text[S[gk] + gi], "inv: a part is the exact text");
    INV(out[gk][T[gk] - S[gk]] == 0, "inv: a part ends where it ends");
  }
  if (gk == k - 1 && gi < i_ - S[gk]) INV(out[gk][gi] == text[S[gk] + gi], "inv: the part so far is the exact text");
  INV((int) chars_consumed_by_filter == S[k - 1], "inv: the place of the last part is remembered");
}
static long measure0;
static long measure(void) { return (long) (N + 2 - i_) * (PL + 2) + (PL + 1 - n_); }

static void reveal(int i)          /* the recurrences around place i for the current part */
{
  int k = k_ - 1;
  ax_B(i); if (i < len) ax_B(i + 1);
  ax_M(w_ + 1, i); ax_Q(k, i); ax_R(k, w_, i);
  if (i < len) { ax_M(w_ + 1, i + 1); ax_Q(k, i + 1); ax_R(k, w_, i + 1); }
}
static void contract(void)
{
  int k = 0, p = 0, pos;
  ax_M(0, 0);
  pos = g_M[0][0];
  want = 1;
  while (pat[p] && pat[p] != '?') p++;
  for (k = 0; k < NPIECE; k++)
  {
    if (pos < 0) { want = 0; S[k] = T[k] = -1; continue; }
    S[k] = pos;
    ASSUME(g_Q[k][pos] == 0);
    if (pat[p + 1] == 0) { T[k] = len; pos = len; }
    else
    {
      ax_B(pos); ax_M(p + 1, pos); ax_R(k, p, pos);
      T[k] = g_R[k][pos];
      if (T[k] < 0) pos = -1;
      else { ASSUME(g_M[p + 1][T[k]] >= T[k] && g_Q[k][T[k]] == 0); pos = g_M[p + 1][T[k]]; }
    }
    for (p++; pat[p] && pat[p] != '?'; p++);
  }
  if (pos < 0) want = 0;
}
void v_cut_main(char* s, char* fil, char* starts, char* startf, int quote)
{
  int m, i;
  if (v_seen_main)
  {
    for (m = 0; m <= PL; m++)
      if (fil == pat + m) { where(m); inv_main(1, s, starts, startf, quote); ENSURES(measure() < measure0, "each iteration gets on"); PROBE("iteration"); END(); }
    ENSURES(0, "inv: the place is in the pattern");
    END();
  }
  v_seen_main = 1;
  where(0);
  ENSURES(fil == pat, "inv: the pattern is read from its start");
  inv_main(1, s, starts, startf, quote);
  where(phase);
  v_nargs = k_;
  v_s = text + in_range(0, N); v_starts = k_ ? text + in_range(0, N) : (char*) 0; v_fil = pat + phase; v_startf = k_ ? pat + w_ : (char*) 0;
  v_quote = in_int();
  bufferpos = buffer + in_range(0, 70000);
  for (i = 0; i < k_; i++) out[i] = buffer + in_range(0, 70000);
  chars_consumed_by_filter = in_int();
#if V_IS_CBMC
  __CPROVER_havoc_object(buffer);
#endif
  inv_main(0, v_s, v_starts, v_startf, v_quote);
  measure0 = measure();
  /* recurrences */
  ax_M(n_, j_);
  if (pat[n_] == '_' ) { ax_B(j_); }
  if (k_) reveal(i_);
}
static int jb;
void v_cut_blanks(char* s)
{
  ENSURES(__CPROVER_same_object(s, text) && s - text >= j_ && s - text < len && blank(*s), "inv: only blanks are skipped");
  ENSURES(g_B[s - text] == g_B[j_] && g_M[n_][s - text] == g_M[n_][j_], "inv: skipping blanks does not change what follows");
  if (v_seen_blanks) { ENSURES(s - text > jb, "each iteration gets on"); PROBE("blanks"); END(); }
  v_seen_blanks = 1;
  jb = in_range(0, N);
  v_s = text + jb;
  ASSUME(jb >= j_ && jb < len && blank(text[jb]) && g_B[jb] == g_B[j_] && g_M[n_][jb] == g_M[n_][j_]);
  ax_B(jb); ax_M(n_, jb); ax_B(jb + 1); ax_M(n_, jb + 1);
}
static int jr;
static int lastk;
void v_cut_rest(char* s)
{
  int a = 1, d;
  if (!v_seen_rest) { lastk = k_; where(n_ + 1); k_ = NPIECE; }
again:
  d = s - text;
  INV(__CPROVER_same_object(s, text) && d >= S[NPIECE - 1] && d < len && text[d] != 0, "inv: the rest is taken");
  INV(bufferpos == out[NPIECE - 1] + (d - S[NPIECE - 1]), "inv: the rest goes to the buffer");
  if (gk == NPIECE - 1 && gi < d - S[gk]) INV(out[gk][gi] == text[S[gk] + gi], "inv: the rest is the exact text");
  if (gk < NPIECE - 1)
  {
    if (gi < T[gk] - S[gk]) INV(out[gk][gi] == text[S[gk] + gi], "inv: the earlier parts stay");
    INV(out[gk][T[gk] - S[gk]] == 0, "inv: the earlier parts stay");
  }
  if (!a) { v_s = s; return; }
  if (v_seen_rest) { ENSURES(d > jr, "each iteration gets on"); PROBE("rest"); END(); }
  v_seen_rest = 1;
  jr = in_range(0, N);
  s = text + jr;
  bufferpos = buffer + in_range(0, 70000);
#if V_IS_CBMC
  __CPROVER_havoc_object(buffer);
#endif
  a = 0;
  goto again;
}
static void run(void)
{
  int i, r;
  char* end;
  len = in_range(0, N);
  for (i = 0; i < N + 2; i++) text[i] = in_char();
  ASSUME(text[len] == 0);
  for (i = 0; i < N + 2; i++) if (i < len) ASSUME(text[i] != 0);
#if V_IS_CBMC
  __CPROVER_havoc_object(g_M); __CPROVER_havoc_object(g_R); __CPROVER_havoc_object(g_Q); __CPROVER_havoc_object(g_B);
#endif
  contract();
  gk = in_range(0, NPIECE ? NPIECE - 1 : 0); gi = in_range(0, N);
  start = buffer + in_range(0, 70000);
  ASSUME(start - buffer < BUFSIZE);
  bufferpos = start;
  v_seen_main = v_seen_blanks = v_seen_rest = 0;
  r = filter(text, pat, &out[0], &out[1], &out[2], &out[3]);
  ENSURES((r != 0) == (want != 0), "a text matches exactly if it has the form of the pattern");
  if (!r)
  {
    ENSURES(bufferpos == start, "a text that does not match takes no room in the buffer");
    PROBE("no match");
    END();
  }
  ENSURES(bufferpos >= start && bufferpos - start <= len + NPIECE && bufferpos - buffer < BUFSIZE, "the buffer is advanced behind the parts");
#if NPIECE
  ENSURES(gk < NPIECE - 1 || out[gk] + (T[gk] - S[gk]) == bufferpos, "the buffer is advanced behind the last part");
  if (gi < T[gk] - S[gk]) ENSURES(out[gk][gi] == text[S[gk] + gi], "a part is the exact text");
  ENSURES(out[gk][T[gk] - S[gk]] == 0, "a part ends where it ends");
  ENSURES((int) chars_consumed_by_filter == S[NPIECE - 1], "the place of the last part is told");
#endif
  PROBE("match");
}
void harness(void)
{
  int p, pick = in_range(0, PL);
  for (p = 0; p <= PL; p++)
    if (pick == p) { phase = p; run(); END(); }
}
