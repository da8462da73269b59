/* The vocabulary of directives: exactly the documented names, each with its
   handler, its parameter and its label rule. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
static const struct { const char* n; void* f; int m; int flags; } doc[] = {
  { "EQU", Xequ, -1, DEFLABEL }, { "ASC", Xasc, -1, 0 }, { "ALIGN", Xalign, -1, 0 }, { "CLIST", Xclist, -1, NOLABEL }, { "CODE", Xcode, -1, NOLABEL },
  { "CPU", Xcpu, -1, NOLABEL }, { "DB", Xdc, 1, 0 }, { "DDB", Xdc, 2, 0 }, { "DL", Xdc, 4, 0 }, { "DW", Xdc, 3, 0 }, { "DUMMY", Xdummy, -1, NOLABEL },
  { "DS", Xds, -1, 0 }, { "ELSE", Xelse, -1, NOLABEL | DEFCOND }, { "ENDC", Xendc, -1, NOLABEL | DEFCOND }, { "ENDM", Xendm, -1, NOLABEL | DEFMACRO },
  { "EXITM", Xexitm, -1, NOLABEL | DEFMACRO }, { "FAIL", Xfail, -1, NOLABEL }, { "IF", Xif, -1, NOLABEL | DEFCOND }, { "ILIST", Xilist, -1, NOLABEL },
  { "INCLUDE", Xinclude, -1, NOLABEL }, { "LIST", Xlist, -1, NOLABEL }, { "MACRO", Xmacro, -1, DEFLABEL | DEFMACRO }, { "MLIST", Xmlist, -1, NOLABEL },
  { "NAM", Xnam, -1, NOLABEL }, { "PAGE", Xpage, -1, NOLABEL }, { "OUTPUT", Xoutput, -1, NOLABEL }, { "SKIP", Xskip, -1, NOLABEL },
};
#define ND ((int) (sizeof doc / sizeof *doc))
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
void harness(void)
{
  extern struct label pseudos[];
  int i, j, k, n = 0, pick = in_range(0, ND - 1);
  struct label* p;
  for (p = pseudos; p->left != (struct label*) -1; p++) n++;
  ENSURES(n == ND, "exactly the documented directives");
  for (i = 0; i < ND; i++)
    if (pick == i)
    {
      struct label* hit = 0;
      for (j = 0; j < n; j++)
      {
        for (k = 0; doc[i].n[k] && up(pseudos[j].name[k]) == doc[i].n[k]; k++);
        if (!doc[i].n[k] && !pseudos[j].name[k]) hit = &pseudos[j];
      }
      ENSURES(hit != 0, "every documented directive is known");
      if (hit)
      {
        ENSURES((void*) hit->ptr == doc[i].f, "the directive has its handler");
        ENSURES(doc[i].m < 0 || hit->modifier == doc[i].m, "the directive has its parameter");
        ENSURES(hit->type == L_MNEMO && hit->modifier >= 0, "the directive is an operation");
        ENSURES((byte) (hit->flags & (NOLABEL | DEFLABEL | DEFMACRO | DEFCOND)) == (byte) doc[i].flags, "the directive has its label rule");
        ENSURES((hit->flags & NOREDEF) && !(hit->flags & (UNDEF | FORWARD)), "the directive cannot be redefined");
        PROBE("entry");
      }
    }
}
