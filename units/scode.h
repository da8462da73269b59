/* scode.h: abstract view of the object writer.

   view = the (address, byte) pairs already written to the object file, in
   order, followed by the pairs still pending in the record buffer.
   Representation invariant INV: 0 <= rawnumber <= 16, bytes are pending only
   while the file is open, and (HEX) the upper address half last announced in
   the file equals the upper half of rawextended.                            */
#include "dcl.h"
#include "verif.h"

extern unsigned long pc, codelen, rawstart;
extern int rawnumber, rawextended;
extern char raw[16];

#define M32 0xffffffffUL

/* snapshot of the pending bytes at entry, and the log of flushed pairs */
static int v0_n;
static unsigned long v0_a[16];
static unsigned char v0_b[16];
static int e_n;                        /* pairs the view must have at the end: v0, then the new byte */
static unsigned long e_a;              /* the new pair, if any */
static unsigned char e_b;
static int w_n;                        /* pairs of the view seen so far */
static unsigned g_upper;               /* decoder: announced upper half (HEX) */

static void scode_inv_assume(void)
{
  int i;
  rawnumber = in_range(0, 16);
  rawstart = (unsigned long) in_long();
  ASSUME(rawstart <= M32);
  pc = (unsigned long) in_long();
  ASSUME(pc <= M32);
  rawextended = in_int();
  for (i = 0; i < 16; i++) raw[i] = in_char();
  codelen = (unsigned long) in_long();
  advance = in_range(0, 1000000);
  asmflags = in_int();
  g_upper = (unsigned) rawextended & 0xffff0000u;
}
static void scode_snapshot(void)
{
  int i;
  v0_n = rawnumber;
  w_n = 0;
  e_n = rawnumber;
  for (i = 0; i < 16; i++)
    if (i < rawnumber)
    {
      v0_a[i] = rawstart + i;
      v0_b[i] = (unsigned char) raw[i];
    }
}
/* the pending pairs are the next ones of the expected view */
static void scode_view_pending(void)
{
  int i;
  for (i = 0; i < 16; i++)
    if (i < rawnumber)
    {
      REQUIRES(w_n < e_n, "no byte is recorded twice or added");
      if (w_n < v0_n)
        REQUIRES(rawstart + i == v0_a[w_n & 15] && (unsigned char) raw[i] == v0_b[w_n & 15], "pending bytes keep address, value and order");
      else
        REQUIRES(rawstart + i == e_a && (unsigned char) raw[i] == e_b, "the new byte is recorded last, at the current address");
      w_n++;
    }
}
static void scode_inv_assert(void)
{
  ENSURES(rawnumber >= 0 && rawnumber <= 16, "at most 16 bytes are pending");
  ENSURES(rawnumber == 0 || scode != NULL, "bytes are pending only for an open object file");
}
