/* Contracts of deflabel(), findlabel() and undeflabels() for any table entry. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
extern int asmflags;
extern struct label pseudos[];
static struct label e, e0, l, r;
static int present, may_error, made;
struct label* searchlabel(char* n) { return present ? &e : 0; }
struct label* makelabel(char* n, unsigned char flags, unsigned char type)
{
  REQUIRES(!present, "only absent names are created");
  present = 1; made = 1;
  e.left = e.right = 0; e.flags = flags; e.type = type; e.value = 0; e.modifier = 0; e.ptr = 0;
  return &e;
}
void error(char* s)
{
  ENSURES(may_error, "only a second definition of a fixed symbol or a keyword is refused");
  ENSURES(e.flags == e0.flags && e.type == e0.type && e.value == e0.value && e.ptr == e0.ptr && e.modifier == e0.modifier, "a refused definition changes nothing");
  PROBE("refused");
  END();
}
static void any(struct label* q)
{
  q->flags = (byte) in_uchar(); q->type = (byte) in_range(-1, 6); q->value = in_long(); q->modifier = (short) in_int();
}
void harness(void)
{
  struct label* q;
  int fl = in_uchar() & (NOREDEF | FORWARD | USED), ty = in_range(2, 6), op = in_range(0, 2);
  long v = in_long();
  present = in_bool();
  any(&e); e.ptr = 0; e.left = e.right = 0;
  e0 = e;
  asmflags = in_int() & ~F_RELATIF;
  if (op == 0)
  {
    may_error = present && !(e.flags & UNDEF) && ((e.flags | fl) & NOREDEF);
    q = deflabel("x", (unsigned char) fl, (unsigned char) ty, v);
    ENSURES(!may_error, "a second definition of a fixed symbol or a keyword is refused");
    ENSURES(q == &e && present, "the entry of the name");
    ENSURES(q->value == v && q->type == ty && q->ptr == 0 && !(q->flags & UNDEF), "the symbol has the new value");
    if (!made) ENSURES(q->flags == ((e0.flags & (USED | NOREDEF | FORWARD)) | (fl & ~USED)), "state kept: used, fixed, forward");
    else ENSURES((q->flags & ~USED) == (fl & ~USED) && !(q->flags & USED), "a new symbol is defined and not used");
    PROBE("defined");
  }
  else if (op == 1)
  {
    q = findlabel("x");
    ENSURES(q == &e && present && (q->flags & USED), "the entry of the name, marked as used");
    if (!made) ENSURES((q->flags | USED) == (e0.flags | USED) && q->value == e0.value && q->type == e0.type && q->modifier == e0.modifier, "nothing else is changed");
    else ENSURES(q->flags == (UNDEF | FORWARD | NOREDEF | USED) && q->type == L_ABSOLUTE, "an unknown name becomes a forward reference");
    PROBE("found");
  }
  else
  {
    static struct label t[3];
    struct label s[3];
    int i, j;
    for (i = 0; i < 3; i++) { any(&t[i]); t[i].left = t[i].right = 0; s[i] = t[i]; }
    if (in_bool()) t[0].left = &t[1];
    if (in_bool()) (in_bool() && t[0].left ? &t[1] : &t[0])->right = &t[2];
    undeflabels(t);
    for (i = 0; i < 3; i++)
    {
      if (i == 1 && !t[0].left) continue;
      if (i == 2 && t[0].right != &t[2] && t[1].right != &t[2]) continue;
      ENSURES(t[i].flags & UNDEF, "every symbol is undefined at the start of the second pass");
      ENSURES(!(t[i].flags & FORWARD) == !((s[i].flags & FORWARD) && (s[i].flags & NOREDEF) && !(s[i].flags & UNDEF)), "forward references are the ones defined in the first pass");
      ENSURES((t[i].flags & ~(UNDEF | FORWARD)) == (s[i].flags & ~(UNDEF | FORWARD)) && t[i].value == s[i].value && t[i].type == s[i].type, "values are kept");
    }
    for (i = 0; pseudos[i].left != (struct label*) -1; i++) ENSURES(!(pseudos[i].flags & UNDEF), "directives stay defined");
    PROBE("undef");
  }
}
