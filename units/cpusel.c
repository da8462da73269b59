/* Contract of the CPU statement: the documented names, each with its byte
   order, address size and instruction set; everything else is refused. */
#include "hand.h"
struct ccase { const char* oper; int lohi; const char* has[4]; const char* hasnot[4]; int ror; };
static const struct ccase cases[] = {
  { "6800", 0, { "LDAA", "TAB" }, { "ABX", "LDA", "LDI" }, -1 },
  { "6801", 0, { "LDAA", "ABX", "MUL" }, { "LDA", "LDI" }, -1 },
  { "6803", 0, { "LDAA", "ABX", "MUL" }, { "LDA", "LDI" }, -1 },
  { "6500", 1, { "LDA", "TXS" }, { "BRA", "STZ", "LDAA", "LDI" }, 0 },
  { "6502", 1, { "LDA", "TXS" }, { "BRA", "STZ", "LDAA", "LDI" }, 1 },
  { "65C02", 1, { "LDA", "BRA", "STZ" }, { "LDAA", "LDI" }, 1 },
  { "65c02", 1, { "LDA", "BRA", "STZ" }, { "LDAA", "LDI" }, 1 },
  { "Z80", 1, { "LD", "LDIR", "DJNZ" }, { "LDA", "LDAA" }, -1 },
  { "z80", 1, { "LD", "LDIR", "DJNZ" }, { "LDA", "LDAA" }, -1 },
  { "680", -1 }, { "68000", -1 }, { "6809", -1 }, { "650", -1 }, { "65C", -1 }, { "65C022", -1 }, { "Z8", -1 }, { "Z800", -1 }, { "8080", -1 }, { "6502 1", -1 }, { "x6502", -1 }, { "", -1 }, { 0, -1 },
};
#define NCASES ((int) (sizeof cases / sizeof *cases))
static struct label* vocab[4];
static int nvocab, lohi, flags0, ror, inror, bytes;
void init_label_list(struct label* l) { REQUIRES(nvocab < 4, "at most four vocabularies"); if (nvocab < 4) vocab[nvocab++] = l; }
void h_on_error(void)
{
  if (inror) { ENSURES(ror == 0, "the model has the instruction"); return; }
  ENSURES(lohi < 0 || (flags0 & F_CPU_GV), "a documented processor is accepted once");
  ENSURES(nvocab == 0 && asmflags == flags0, "a refused CPU statement changes nothing");
}
void h_on_byte(unsigned char b) { bytes++; }
static struct label* known(const char* n)
{
  int v;
  struct label* p;
  for (v = 0; v < nvocab; v++)
    for (p = vocab[v]; p->left != (struct label*) -1; p++)
      if (low(p->name[0]) == low(n[0]) && same(p->name, n)) return p;
  return 0;
}
static char buf[32];
void harness(void)
{
  int pick = in_range(0, NCASES - 1), i, k;
  asmflags = flags0 = in_int();
  passnumber = in_range(1, 2);
  for (i = 0; i < NCASES; i++)
    if (pick == i)
    {
      const struct ccase* c = &cases[i];
      struct label* l = h_find("CPU");
      lohi = c->lohi; ror = c->ror;
      for (k = 0; c->oper && c->oper[k]; k++) buf[k] = c->oper[k];
      buf[k] = 0;
      (*l->ptr)((int) l->modifier, (char*) 0, l->name, c->oper ? buf : (char*) 0);
      ENSURES(lohi >= 0, "an unknown processor is refused");
      ENSURES(!(flags0 & F_CPU_GV), "a second selection is refused");
      ENSURES(!(asmflags & F_CPU_GV) == (passnumber == 1), "the selection is final in the second pass");
      ENSURES(!(asmflags & F_LOHI) == !lohi, "the byte order is that of the processor");
      ENSURES(asmflags & F_ADDR16, "addresses have 16 bits");
      ENSURES(!((asmflags ^ flags0) & ~(F_CPU_GV | F_LOHI | F_ADDR16 | F_RELATIF | (c->hasnot[0][2] == 'A' && c->has[1][0] == 'L' ? F_CODE_HEX : 0))), "nothing else is changed");
      for (k = 0; k < 4 && c->has[k]; k++) ENSURES(known(c->has[k]) != 0, "the instructions of the processor are known");
      for (k = 0; k < 4 && c->hasnot[k]; k++) ENSURES(known(c->hasnot[k]) == 0, "the instructions of other processors are not known");
      PROBE("selected");
      if (ror >= 0)
      {
        struct label* r = known("ROR");
        inror = 1; bytes = 0;
        ENSURES(r != 0 && r->ptr != 0, "ROR is a mnemonic of the family");
        h_nitem = 1; h_item[0] = "q"; h_val[0] = 0x1234; h_type[0] = L_ABSOLUTE; h_flags[0] = 0; h_mod[0] = 0;
        buf[0] = 'q'; buf[1] = 0;
        (*r->ptr)((int) r->modifier, (char*) 0, r->name, buf);
        ENSURES(ror == 1 && bytes == 3, "only the 6500 lacks ROR");
        PROBE("ror");
      }
      END();
    }
}
