/* init_label_list(): all keywords of a vocabulary become known, once, whatever
   was defined before; in the second pass they become defined again. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#define KW(n) {0,0,n,NOREDEF,L_MNEMO,0,0,0},
#define END_ { (struct label*) -1, (struct label*) -1 }
static struct label v1[] = { KW("ALFA") END_ }, v3[] = { KW("ALFA") KW("CETA") KW("BETA") END_ },
  v6[] = { KW("MU") KW("LAMBDA") KW("XI") KW("NU") KW("PI") KW("RHO") END_ }, v7[] = { KW("A") KW("B") KW("C") KW("D") KW("E") KW("F") KW("G") END_ };
#ifndef MODE
#define MODE 0      /* 1: the user defined the first keyword before, 2: entered again in the second pass */
#endif
struct label pseudos[] = { KW("IF") KW("ENDC") END_ };    /* the directives by their table's shape */
static int warned;
extern int segment;
extern int asmflags;
void warning(char* s) { warned++; }
void error(char* s) { ENSURES(0, "no error"); END(); }
void fatal(char* s) { ENSURES(0, "no fatal error"); END(); }
static void one(struct label* v, int n, char* first)
{
  int i, user = MODE == 1, again = MODE == 2;
  struct label* u = 0;
  lroot = 0;
  if (user) u = deflabel(first, NOREDEF, L_ABSOLUTE, 5);    /* a user's symbol of the same name */
  warned = 0;
  init_label_list(v);
  ENSURES(warned == user, "a keyword hidden by a symbol is reported");
  for (i = 0; i < n; i++)
    if (!(user && i == 0)) ENSURES(searchlabel(v[i].name) == &v[i] && !(v[i].flags & UNDEF), "every keyword is known");
  if (user) ENSURES(searchlabel(first) == u && u->value == 5, "the symbol of the user is kept");
  if (again && !user)
  {
    for (i = 0; i < n; i++) v[i].flags |= UNDEF;      /* undeflabels(), by its contract (symops) */
    init_label_list(v);
    ENSURES(warned == 0, "the second pass enters the keywords again");
    for (i = 0; i < n; i++) ENSURES(searchlabel(v[i].name) == &v[i] && v[i].flags == NOREDEF, "every keyword is known in the second pass");
  }
  PROBE("done");
}
#ifndef MODE
#define MODE 0      /* 1: the user defined the first keyword before, 2: entered again in the second pass */
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void harness(void)
{
  asmflags = in_int();
  one(CAT(v, KWS), KWS, KWS == 1 ? "alfa" : KWS == 3 ? "Alfa" : KWS == 6 ? "mu" : "a");
}
