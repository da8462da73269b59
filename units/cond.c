/* Contract of conditional assembly.  TRUTH: the condition, for all operand
   values.  Otherwise the flow of Xif(): asmline() and linegets() by contract, any
   sequence of statements (nested blocks are one call of asmline(), by induction);
   at most LINES statements per branch. */
#include "hand.h"
#include <setjmp.h>
#define ENDC  0x11
#define ELSE  0x12
#define ENDM  0x21
#define EXITM 0x22
#ifndef LINES
#define LINES 3
#endif
extern jmp_buf errorjump;
extern int errnumber;
extern char lineprefix;
extern char curline[256];
extern FILE* file;
struct label* starlabel_;
static int truth, phase, lines, got_line, raised, nraised, eof, status, listed, forward_bad, uncomparable, flow_err, err0, final;
static char prefix0;
static unsigned char* ej = (unsigned char*) errorjump;
static int g_j, g_b;
void outputline(void) { listed++; }
static int on_eof(void) { return eof; }
int v_feof(FILE* f) { return eof; }
#ifndef VNATIVE
int feof(FILE* f) { return eof; }
int _setjmp(struct __jmp_buf_tag* b) { int r = raised; ((unsigned char*) b)[g_j] = 0x77; raised = 0; return r; }
#endif
void h_on_byte(unsigned char b) {}
#ifdef TRUTH
void h_on_error(void) { ENSURES(forward_bad || uncomparable, "a condition on known, comparable values is evaluated"); }
#else
void h_on_error(void)
{
  ENSURES(eof || flow_err, "conditionals that are closed are no error");
  ENSURES(ej[g_j] == g_b, "errors behind the conditional are handled by the surrounding block");
}
#endif
void linegets(char* b, int n) { REQUIRES(b == curline && n <= 256, "lines fit"); got_line++; if (!eof) eof = in_bool() && got_line > 1; }
int asmline(char* s, int st)
{
  int act = (phase == 1) == (truth != 0), r;
  ENSURES(s == curline && got_line == lines + 1, "every line is assembled once, in order");
  lines++;
  ENSURES(!eof, "nothing is assembled behind the end of the text");
  ENSURES(!(st & 2) == !(status & 2 && act), "exactly the branch chosen by the condition is assembled");
  ENSURES((st & ~status) == 0, "a skipped part has no listed or assembled part");
  if (!(st & 2) && (status & 2)) ENSURES(lineprefix == 'C', "skipped lines are marked");
#ifdef TRUTH
  return ENDC;
#else
  if (in_bool()) asmflags ^= F_IFLIST_ON;
  if (lines < LINES * phase && in_bool())
  {
    if (in_bool())
    {
      nraised++;
#ifdef VNATIVE
      longjmp(errorjump, 1);
#else
      raised = 1;
#endif
    }
    if (!(st & 2) && in_bool()) return EXITM;   /* in a skipped part: no effect */
    return 0;
  }
  if (phase == 1 && in_bool()) { phase = 2; got_line = lines = lines; return ELSE; }
  r = in_range(0, 3);
  final = r == 0 || r == 1 ? ENDC : r == 2 ? ENDM : phase == 2 ? ELSE : ENDC;
  if (r == 1 && st & 2) final = EXITM;
  flow_err = final == ENDM || final == ELSE;
  return final;
#endif
}
#ifdef TRUTH
struct tcase { const char* oper; int op; const char* a; const char* b; };
/* op: 1 = 2 <> 3 < 4 > 5 <= 6 >= 7 nonzero 8 nothing */
static const struct tcase cases[] = {
  { "q=w", 1, "q", "w" }, { "q==w", 1, "q", "w" }, { "q <> w", 2, "q", "w" }, { "q!=w", 2, "q", "w" }, { "q < w", 3, "q", "w" }, { "q>w", 4, "q", "w" },
  { "q<=w", 5, "q", "w" }, { "q >= w", 6, "q", "w" }, { "q", 7, "q", 0 }, { 0, 8, 0, 0 }, { "", 8, 0, 0 }, { "(q=v)=w", 1, "(q=v)", "w" }, { "'<'>=q", 6, "'<'", "q" },
  { "q\t>\tw", 4, "q", "w" }, { "q==\"=\"", 1, "q", "\"=\"" },
};
#define NCASES ((int) (sizeof cases / sizeof *cases))
#endif
static char buf[32];
void harness(void)
{
  int k, r;
#ifdef VNATIVE
  FILE* f = tmpfile();
  file = f;
#endif
  asmflags = in_int();
  g_j = in_range(0, 8); g_b = in_uchar();
  phase = 1;
  ej[g_j] = g_b;
  err0 = errnumber = in_range(0, 1000);
  prefix0 = lineprefix = in_char();
#ifdef TRUTH
  {
    int i, pick = in_range(0, NCASES - 1);
    for (i = 0; i < NCASES; i++)
      if (pick == i)
      {
        const struct tcase* c = &cases[i];
        long a, b;
        int n = 0;
        if (c->a) { h_item[n++] = c->a; }
        if (c->b) { h_item[n++] = c->b; }
        h_items(n);
        for (k = 0; k < n; k++) h_mod[k] = (short) in_int();
        forward_bad = 0;
        for (k = 0; k < n; k++) if (h_flags[k] & UNDEF && h_flags[k] & FORWARD) forward_bad = 1;
        a = h_val[0]; b = n > 1 ? h_val[1] : 0;
        uncomparable = n > 0 && h_type[0] != (n > 1 ? h_type[1] : L_ABSOLUTE);
        if (c->op >= 3 && c->op <= 6 && h_type[0] != L_ABSOLUTE) uncomparable = 1;
        /* bit references compare equal when address and bit number agree; numbers have none */
        if (n > 0) ASSUME(h_type[0] == L_DIRECTBIT || h_mod[0] == 0);
        if (n > 1) ASSUME(h_type[1] == L_DIRECTBIT || h_mod[1] == 0);
        switch (c->op)
        {
        case 1: truth = a == b && h_mod[0] == h_mod[1]; break;
        case 2: truth = !(a == b && h_mod[0] == h_mod[1]); break;
        case 3: truth = a < b; break;
        case 4: truth = a > b; break;
        case 5: truth = a <= b; break;
        case 6: truth = a >= b; break;
        case 7: truth = a != 0; break;
        default: truth = 0;
        }
        status = 2 | in_bool();
        for (k = 0; c->oper && c->oper[k]; k++) buf[k] = c->oper[k];
        buf[k] = 0;
        r = Xif(status, 0, "IF", c->oper ? buf : (char*) 0);
        ENSURES(!forward_bad && !uncomparable, "a condition on forward or incomparable operands is an error");
        ENSURES(lines == 1 && r == 0, "the block ends at its ENDC");
        PROBE("evaluated");
        END();
      }
  }
#else
  h_item[0] = "q"; h_items(1); h_type[0] = L_ABSOLUTE; h_flags[0] = 0;
  status = in_range(0, 3);
  truth = h_val[0] != 0;
  if (!(status & 2)) truth = 0;
  buf[0] = 'q'; buf[1] = 0;
  if (status == 2 && in_bool()) eof = 0;
  r = Xif(status, 0, "IF", buf);
  ENSURES(!flow_err && !eof, "an unclosed or wrongly closed conditional is an error");
  ENSURES(r == (final == EXITM ? EXITM : 0), "the block is one statement, or leaves the macro");
  ENSURES(lineprefix == prefix0, "the line mark is restored");
  ENSURES(errnumber == err0 + nraised, "every error in the block is counted");
  ENSURES(ej[g_j] == g_b, "errors behind the conditional are handled by the surrounding block");
  PROBE("done");
#endif
}
