/* Contracts of flushscoderaw and closescodefile: the text written decodes, by
   an independent decoder, to exactly the pending bytes.  stdio is trusted:
   fputc/fputs append to the file. */
#include "scode.h"

static int closed;

/* ---- independent decoder, one character at a time ----
   data bytes are compared on the fly with the pending bytes at entry */
static int okrec;                /* everything so far is well formed */
static int okdata;               /* every data byte was the expected one */
static int st;                   /* 0 line start, 1 after S, 2 high digit, 3 low digit */
static int hexrec;               /* current record: HEX or S */
static unsigned k;               /* bytes of the record so far */
static unsigned cnt, typ, alen, addr, sum, hi;
static int d_n;                  /* data bytes decoded */
static int d_term;               /* termination records seen */
static int d_kind;               /* format of the last record: 1 HEX, 0 S */

static void got_byte(unsigned v)
{
  unsigned total, data, head;
  sum = (sum + v) & 0xff;
  if (k == 0) cnt = v;
  head = hexrec ? 4 : 1 + alen;                /* bytes before the data */
  total = hexrec ? cnt + 5 : cnt + 1;
  if (hexrec ? (k == 1 || k == 2) : (k >= 1 && k <= alen)) addr = addr << 8 | v;
  if (hexrec && k == 3) typ = v;
  data = k >= head && k + 1 < total;
  if (data && typ == 0)
  {
    unsigned a = (hexrec ? g_upper + addr : addr) + (k - head);
    if (d_n >= 16 || a != (unsigned) v0_a[d_n & 15] || v != v0_b[d_n & 15]) okdata = 0;
    d_n++;
  }
  if (data && typ == 4)
    g_upper = k == 4 ? v << 24 : g_upper | v << 16;
  k++;
}
static void end_record(void)
{
  unsigned total = hexrec ? cnt + 5 : cnt + 1;
  if (st != 2 || k == 0 || k != total) okrec = 0;
  if (sum != (hexrec ? 0u : 0xffu)) okrec = 0;
  if (d_term) okrec = 0;                       /* nothing follows the termination record */
  if (hexrec)
  {
    if (typ != 0 && typ != 1 && typ != 4) okrec = 0;
    if (typ == 0 && (cnt < 1 || cnt > 16)) okrec = 0;
    if (typ == 1 && cnt != 0) okrec = 0;
    if (typ == 4 && (cnt != 2 || addr != 0)) okrec = 0;
  }
  else
  {
    if (typ == 0 && (cnt < alen + 2 || cnt > alen + 17)) okrec = 0;
    if (typ == 1 && cnt != alen + 1) okrec = 0;
  }
  if (typ == 1) d_term++;
  d_kind = hexrec;
  st = 0;
}
static void feed(char c)
{
  if (st == 0)
  {
    if (c == ':') { hexrec = 1; st = 2; } else if (c == 'S') { hexrec = 0; st = 1; } else okrec = 0;
    k = 0; cnt = 0; typ = 0; addr = 0; sum = 0; alen = 2;
  }
  else if (st == 1)
  {
    if (c == '1' || c == '9') alen = 2;
    else if (c == '2' || c == '8') alen = 3;
    else if (c == '3' || c == '7') alen = 4;
    else okrec = 0;
    typ = c >= '7';                            /* termination */
    st = 2;
  }
  else if (st == 2 && k > 0 && k == (hexrec ? cnt + 5 : cnt + 1))
  {
    if (c != '\n') okrec = 0;
    end_record();
  }
  else
  {
    unsigned v = c <= '9' ? c - '0' : c - 'A' + 10;
    if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'))) okrec = 0;
    if (st == 2) { hi = v; st = 3; }
    else { st = 2; got_byte((hi << 4 | v) & 0xff); }
  }
}

#ifndef VNATIVE
static char dummyfile[8];
int fputc(int c, FILE* f)
{
  REQUIRES(f == (FILE*) dummyfile && !closed, "writes go to the open object file");
  feed((char) c);
  return c;
}
int fputs(const char* s, FILE* f)
{
  int i;
  for (i = 0; s[i]; i++) fputc(s[i], f);
  return 0;
}
int ferror(FILE* f) { return 0; }
int fclose(FILE* f) { REQUIRES(f == (FILE*) dummyfile && !closed, "the object file is closed once"); closed = 1; return 0; }
#else
static char* mbuf; static size_t msize;
#endif

#ifdef CLOSE
static int flushed;
void flushscoderaw(void)          /* contract, verified by unit scode_flush */
{
  int i;
  REQUIRES(scode != NULL && !closed, "flush: the object file is open");
  for (i = 0; i < 16; i++)
    if (i < rawnumber)
    {
      if (d_n >= 16 || rawstart + i != v0_a[d_n & 15] || (unsigned char) raw[i] != v0_b[d_n & 15]) okdata = 0;
      d_n++;
    }
  flushed = 1;
  rawnumber = 0;
  rawstart = pc;
}
#endif
static void body(void)
{
  int i, old_flags, old_n, old_adv;
  unsigned long old_pc, old_len;
  scode_snapshot();
  old_flags = asmflags; old_pc = pc; old_len = codelen; old_adv = advance; old_n = rawnumber;
  closed = 0; d_n = 0; okrec = 1; okdata = 1; st = 0; d_term = 0;
#ifndef VNATIVE
  scode = (FILE*) dummyfile;
#else
  scode = open_memstream(&mbuf, &msize);
#endif
#ifdef CLOSE
  closescodefile();
#else
  flushscoderaw();
#endif
#ifdef VNATIVE
#ifndef CLOSE
  fclose(scode);
#endif
  closed = 1;
  for (i = 0; i < (int) msize; i++) feed(mbuf[i]);
#endif
  ENSURES(okrec && st == 0, "the text is a sequence of well formed records with correct length and checksum");
#ifdef CLOSE
  ENSURES(d_term == 1, "exactly one termination record, at the end");
  ENSURES(closed, "the object file is closed");
  ENSURES(d_kind == ((old_flags & F_CODE_HEX) != 0), "the termination record is of the selected format");
#else
  ENSURES(d_term == 0, "no termination record in between");
#endif
  ENSURES(d_n == v0_n, "decoding yields as many bytes as were pending");
  ENSURES(okdata, "decoding yields the pending bytes at their addresses, in order");
  ENSURES(rawnumber == 0, "nothing is pending afterwards");
  ENSURES(rawstart == pc, "the next record starts at the current address");
  ENSURES(pc == old_pc && codelen == old_len && advance == old_adv && asmflags == old_flags, "writing changes no assembling state");
#ifndef CLOSE
  if (old_flags & F_CODE_HEX)
    ENSURES(d_n == 0 || ((unsigned) rawextended & 0xffff0000u) == g_upper, "the announced upper address half is remembered");
  ENSURES(d_n > 0 || g_upper == ((unsigned) rawextended & 0xffff0000u), "the announced upper address half is remembered");
#endif
  PROBE("returns");
}

void harness(void)
{
  int i;
  scode_inv_assume();
  /* case split over the runs of this unit, complete */
#ifdef NRAW
  ASSUME(rawnumber == NRAW);
  rawnumber = NRAW;
#endif
#ifdef FMT
  ASSUME(((asmflags & F_CODE_HEX) != 0) == FMT);
#endif
  body();
}
