/* Contract of the alignment directive: at most the one byte needed. */
#include "hand.h"
static const struct { const char* oper; int odd; } cases[] = {
  { "EVEN", 0 }, { "ODD", 1 }, { "even", 0 }, { "oDd", 1 }, { "EVEN ", 0 }, { "\tODD", 1 }, { 0, -1 }, { "EVE", -1 }, { "EVENS", -1 }, { "ODDX", -1 }, { "2", -1 }, { "", -1 },
};
#define NCASES ((int) (sizeof cases / sizeof *cases))
static int n, odd;
static unsigned long pc0;
void h_on_error(void) { ENSURES(odd < 0, "EVEN and ODD are accepted"); }
void h_on_byte(unsigned char b) { n++; ENSURES(b == 0, "the padding is zero"); }
static char buf[32];
void harness(void)
{
  int pick = in_range(0, NCASES - 1), i, k;
  asmflags = in_int();
  pc0 = pc = in_long(); advance = 0; n = 0;
  for (i = 0; i < NCASES; i++)
    if (pick == i)
    {
      struct label* l = h_find("ALIGN");
      odd = cases[i].odd;
      for (k = 0; cases[i].oper && cases[i].oper[k]; k++) buf[k] = cases[i].oper[k];
      buf[k] = 0;
      (*l->ptr)((int) l->modifier, (char*) 0, l->name, cases[i].oper ? buf : (char*) 0);
      ENSURES(odd >= 0, "anything but EVEN and ODD is refused");
      ENSURES((pc & 1) == odd, "the address is even or odd as asked");
      ENSURES(n == (int) ((pc0 ^ odd) & 1), "no byte more than needed");
      PROBE("done");
      END();
    }
}
