/* Contract of filter(): what a match is.

   A pattern is a sequence of literals (compared without regard to case, a
   blank also standing for a tab), '_' (any number of blanks and tabs) and '?'
   (a text).  A '?' that ends the pattern takes the rest.  Any other '?' takes
   the shortest text such that the pattern up to the next '?' or the end matches
   behind it at a place that is outside quotes and parentheses; there is no
   backtracking over an earlier '?'.  Outside means: reading the text taken,
   no quote is open (a backslash in quotes takes the next character along) and
   as many parentheses were opened as closed outside quotes.                 */
#ifndef FILTER_SPEC_H
#define FILTER_SPEC_H
#ifndef VNATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
struct fpiece { int start, end; };
static int fs_blank(char c) { return c == ' ' || c == '\t'; }
static char fs_up(char c) { return c >= 'a' && c <= 'z' ? (char) (c - 32) : c; }

/* does the pattern at p, up to its next '?' or its end, match s at i?
   -> the position behind the match, or -1; fs_n: position in the pattern */
static int fs_n;
static int fs_segment(const char* s, int i, const char* p)
{
  int n = 0;
  for (;;)
  {
    if (p[n] == '?') { fs_n = n; return i; }
    if (p[n] == 0)   { fs_n = n; return s[i] == 0 ? i : -1; }
    if (p[n] == '_') { while (fs_blank(s[i])) i++; }
    else if (s[i] != 0 && (fs_up(p[n]) == fs_up(s[i]) || (p[n] == ' ' && s[i] == '\t'))) i++;
    else return -1;
    n++;
  }
}
/* -> number of pieces + 1 on a match, 0 otherwise */
static int fs_match(const char* s, const char* p, struct fpiece* out)
{
  int i, np = 0, depth = 0;
  char inq = 0, esc = 0;
  i = fs_segment(s, 0, p);
  if (i < 0) return 0;
  for (;;)
  {
    int start = i, e = -1;
    p += fs_n;
    if (*p == 0) return np + 1;
    p++;
    if (*p == 0)
    {
      out[np].start = start;
      while (s[i]) i++;
      out[np].end = i;
      return np + 2;
    }
    for (;;)
    {
      if (!inq && !depth) e = fs_segment(s, i, p);
      if (e >= 0) break;
      if (!s[i]) return 0;
      if (esc) esc = 0;
      else if (inq)
      {
        if (s[i] == '\\') esc = 1;
        else if (s[i] == inq) inq = 0;
      }
      else if (s[i] == '\'' || s[i] == '"') inq = s[i];
      else if (s[i] == '(') depth++;
      else if (s[i] == ')') depth--;
      i++;
    }
    out[np].start = start; out[np].end = i; np++;
    i = e;
  }
}
#ifndef VNATIVE
#pragma CPROVER check pop
#endif
#endif
