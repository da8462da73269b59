/* Contracts of insert16, insert24, insert32: bytes in the selected order. */
#include "dcl.h"
#include "verif.h"
static unsigned char out[8];
static int n;
void insert8(unsigned char x)
{
  REQUIRES(n < 8, "no more bytes than the operand has");
  out[n++] = x;
}
void harness(void)
{
  unsigned v = (unsigned) in_int();
  int lohi, i, size, old;
  asmflags = in_int();
  old = asmflags;
  lohi = (asmflags & F_LOHI) != 0;
  n = 0;
#if defined(W16)
  size = 2; insert16((unsigned short) v);
#elif defined(W24)
  size = 3; insert24(v);
#else
  size = 4; insert32(v);
#endif
  ENSURES(n == size, "the operand has its documented size");
  for (i = 0; i < 4; i++)
    if (i < size)
      ENSURES(out[i] == (unsigned char)(v >> (8 * (lohi ? i : size - 1 - i))), "the operand bytes are in the selected order");
  ENSURES(asmflags == old, "flags are unchanged");
  PROBE("returns");
}
