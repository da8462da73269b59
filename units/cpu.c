/* Contracts of the instruction handlers: every mnemonic of a processor with
   every operand form, for all operand values, types and definedness.  The
   expected bytes come from the processor manuals (lib/cpuspec.py), the
   handlers are reached through the vocabulary as asmline() does.
   filter() and parse() are replaced by their contracts: parse() it yields any result for an expression
   and the register for a register name.  insert8/insert16 by theirs. */
#include "dcl.h"
#include "label.h"
#include "cpu.h"
#include "verif.h"

#define QL 256
#define QH 257
#define WL 258
#define WH 259
#define QNEG 260     /* low byte of -q */
#define REL 261      /* branch displacement to q */
#define T_END -1
#define K_NORM 0
#define K_BRANCH 1
#define K_BITNO 2    /* q is a bit number, added to the last byte */
#define K_RST 3
#define K_IM 4
#define K_IDX8 5     /* q has to be 0..255 */
#define K_DISP 6     /* q is a displacement: warned when out of -128..127 */
#define K_DISPN 7    /* -q is a displacement */
#define K_BITDISP 8  /* q a bit number, w a displacement */
#define K_KNOWN 9    /* known finding */
struct ccase { const char* mnemo; const char* oper; short kind; short sel; short s[5]; short l[5]; short known[5]; };
#include CASES
#include "filter_stub.h"

#ifndef VNATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
extern unsigned long pc;
extern int advance, asmflags, passnumber;
static unsigned char out[8];
static int nout, warned, error_ok, form_ok, fwd;
static const short* want;
static int wantlen;
static long qv, wv;
static int qt, wt, qf, wf;
static struct result pres;
static struct label* vocab[4];
static int nvocab;
extern void CPUINIT(int);
static char operbuf[40];

void insert8(unsigned char b) { if (nout < 8) out[nout] = (unsigned char) b; nout++; pc++; advance++; }
void insert16(unsigned short w)
{
  if (asmflags & F_LOHI) { insert8(w & 255); insert8(w >> 8 & 255); }
  else { insert8(w >> 8 & 255); insert8(w & 255); }
}
void init_label_list(struct label* l) { REQUIRES(nvocab < 4, "at most four vocabularies"); vocab[nvocab++] = l; }
void warning(char* s) { warned++; }
void error(char* s)
{
  ENSURES(error_ok, "a valid instruction is accepted");
  ENSURES(!form_ok || !fwd || nout == wantlen, "C12: an instruction refused for a value in one pass only has its size nevertheless");
  END();
}
void fatal(char* s) { ENSURES(0, "no fatal error"); END(); }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char* a, const char* b)
{
  int i;
  for (i = 0; low(a[i]) == low(b[i]); i++) if (!a[i]) return 1;
  return 0;
}
static struct label* find(const char* n)
{
  int v;
  struct label* p;
  for (v = 0; v < nvocab; v++)
    for (p = vocab[v]; p->left != (struct label*) -1; p++)
      if (low(p->name[0]) == low(n[0]) && same(p->name, n)) return p;
  return 0;
}
struct result* parse(char* s)
{
  static char t[16];
  int i, j = 0;
  struct label* l;
  if (!s) error("no operand");
  for (i = 0; s[i] == ' '; i++);
  while (s[i] && j < 15) t[j++] = s[i++];
  while (j > 0 && t[j - 1] == ' ') j--;
  t[j] = 0;
  pres.modifier = 0; pres.ptr = 0; pres.flags = 0; pres.type = L_ABSOLUTE; pres.value = 0;
  if (same(t, "q")) { pres.type = qt; pres.value = qv; pres.flags = qf; if (qt == L_REGS) pres.modifier = 1; }
  else if (same(t, "w")) { pres.type = wt; pres.value = wv; pres.flags = wf; if (wt == L_REGS) pres.modifier = 1; }
  else if (same(t, "0")) ;
  else if ((l = find(t)) && l->type == L_REGS) { pres.type = L_REGS; pres.value = l->value; pres.modifier = l->modifier; }
  else error("syntax");
  return &pres;
}
static int bad_q;
static int expect(int t)
{
  switch (t)
  {
  case QL: return qv & 255;
  case QH: return qv >> 8 & 255;
  case WL: return wv & 255;
  case WH: return wv >> 8 & 255;
  case QNEG: return -qv & 255;
  case REL: return qv - (long) (pc - nout) - 2 & 255;
  default: return t;
  }
}
static void run(const struct ccase* c, struct label* lab)
{
  int i, useq = 0, usew = 0, longform;
  long d;
  const char* p = c->oper;
  for (i = 0; p && p[i]; i++)
  {
    if (low(p[i]) == 'q') useq = 1;
    if (low(p[i]) == 'w') usew = 1;
    operbuf[i] = p[i];
  }
  operbuf[i] = 0;
  qv = in_long(); wv = in_long(); qf = in_bool() ? FORWARD : 0; wf = in_bool() ? FORWARD : 0;
#ifdef C12
  qf = wf = FORWARD;   /* an operand that is defined further on, in either pass */
#endif
  ASSUME(qv >= -32768 && qv <= 65535 && wv >= -32768 && wv <= 65535);
  qt = in_bool() ? L_ABSOLUTE : L_DIRECTBIT; wt = in_bool() ? L_ABSOLUTE : L_DIRECTBIT;
#ifdef C12
  qt = wt = L_ABSOLUTE;
#endif
  pc = in_long() & 0xffff;
  advance = nout = warned = 0;
  passnumber = 1 + in_bool();
  longform = qf & FORWARD || qv & 0xff00 ? 1 : 0;
  want = !c->sel || (!longform && c->s[0] != T_END) ? c->s : c->l;
  for (wantlen = 0; wantlen < 4 && want[wantlen] != T_END; wantlen++);
  error_ok = wantlen == 0;
  form_ok = wantlen != 0;
  fwd = useq && qf & FORWARD || usew && wf & FORWARD;
  if (useq && qt != L_ABSOLUTE || usew && wt != L_ABSOLUTE) { error_ok = 1; form_ok = 0; }
  d = qv - (long) pc - 2;
  bad_q = 0;
  switch (c->kind)
  {
  case K_BRANCH: bad_q = d < -128 || d > 127; break;
  case K_BITNO: case K_BITDISP: bad_q = qv < 0 || qv > 7; break;
  case K_RST: bad_q = qv < 0 || qv > 0x38 || (qv > 7 && (qv & 7)); break;
  case K_IM: bad_q = qv < 0 || qv > 2; break;
  case K_IDX8: bad_q = (qv & 0xff00) != 0; break;
  }
  if (bad_q) error_ok = 1;
#ifndef NOHANDLER
  (*lab->ptr)((int) lab->modifier, (char*) 0, lab->name, p ? operbuf : (char*) 0);
#endif
  ENSURES(form_ok, "an instruction or addressing mode that the processor does not have is refused");
  ENSURES(!(useq && qt != L_ABSOLUTE || usew && wt != L_ABSOLUTE), "an operand that is no number is refused");
  ENSURES(!bad_q, "an operand out of the range of the instruction is refused");
  ENSURES(nout == wantlen, "the instruction has the number of bytes of the manual");
#ifdef KNOWN
  ENSURES((out[0] == want[0] && out[1] == want[1]) || (out[0] == c->known[0] && out[1] == c->known[1]), "the known finding has not changed");
#endif
  for (i = 0; i < 4; i++)
    if (want[i] != T_END)
    {
      int e = expect(want[i]);
      if (i == wantlen - 1)
      {
        if (c->kind == K_BITNO || c->kind == K_BITDISP) e += (int) qv << 3;
        if (c->kind == K_RST) e = 0xc7 | (qv < 8 ? (int) qv << 3 : (int) qv);
        if (c->kind == K_IM) e = qv == 0 ? 0x46 : qv == 1 ? 0x56 : 0x5e;
      }
      ENSURES(out[i] == (unsigned char) e, "the bytes are those of the manual, operands in the right size and order");
    }
    else break;
  if (c->kind == K_DISP) ENSURES(warned || (qv >= -128 && qv <= 127), "a displacement out of range is reported");
  if (c->kind == K_DISPN) ENSURES(warned || (-qv >= -128 && -qv <= 127), "a displacement out of range is reported");
  if (c->kind == K_BITDISP) ENSURES(warned || (wv >= -128 && wv <= 127), "a displacement out of range is reported");
}
void harness(void)
{
  int pick = in_range(0, NCASES - 1), i, n = 0;
  struct label* p, *l = 0;
  asmflags = in_int();
  CPUINIT(CPUCODE);
  for (i = 0; i < nvocab; i++)
    for (p = vocab[i]; p->left != (struct label*) -1; p++)
      if (p->type == L_MNEMO) n++;
  ENSURES(n == NMNEMO, "the processor has exactly the instructions of the manual");
  for (i = 0; i < NCASES; i++)
  {
    if (i == 0 || cases[i].mnemo[0] != cases[i - 1].mnemo[0] || !same(cases[i].mnemo, cases[i - 1].mnemo)) l = find(cases[i].mnemo);
    if (pick == i)
    {
      ENSURES(l != 0 && l->type == L_MNEMO && l->ptr != 0, "every instruction of the manual is known");
#ifndef NORUN
      run(&cases[i], l);
#endif
      PROBE("done");
      END();
    }
  }
}
