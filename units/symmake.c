/* makelabel(): every entry is a new one, named, marked and typed as asked, and
   entering names leaves all other entries alone; CALLS entries in a row. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
#ifndef CALLS
#define CALLS (K + 2)
#endif
static struct label* q[CALLS];
#ifndef VNATIVE
/* fresh memory, of the type the entries are kept in; cleared when asked for */
struct labelarray { int position; struct label label[100]; };
static struct labelarray pool[3];
static int npool, cleared;
void* malloc(size_t n) { ENSURES(n == sizeof pool[0] && npool < 3, "blocks of 100 entries"); cleared = 0; return &pool[npool++]; }
void* memset(void* p, int c, size_t n) { REQUIRES(npool > 0 && p == &pool[npool - 1] && n == sizeof pool[0] && c == 0, "the block of entries is cleared"); cleared = 1; return p; }
#else
static int cleared = 1;
#endif
static int same(const char* a, const char* b) { int i; for (i = 0; i < LABLEN; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
void fatal(char* s) { ENSURES(0, "a new name is entered"); END(); }
extern int segment;
void harness(void)
{
  int i, k = K, j;
  int fl = in_uchar() & 15, ty = in_range(2, 6);
  long v = in_long();
  struct label keep;
  char nm[5];
  nm[4] = 0;
  for (i = 0; i < CALLS; i++)
  {
    nm[0] = 'a'; nm[1] = 'a' + i / 100; nm[2] = 'a' + i / 10 % 10; nm[3] = 'a' + i % 10;
    lroot = 0;
    q[i] = makelabel(nm, (unsigned char) (i == k ? fl : 1), (unsigned char) (i == k ? ty : 3));
    ENSURES(lroot == q[i] && q[i] && q[i]->left == 0 && q[i]->right == 0, "the entry is linked");
    ENSURES(cleared, "new entries are cleared");
    if (i == k)
    {
      ENSURES(q[i]->flags == fl && q[i]->type == ty && q[i]->value == 0 && q[i]->modifier == 0 && q[i]->ptr == 0, "the entry has the state asked for");
      q[i]->value = v;
    }
  }
  nm[0] = 'A'; nm[1] = 'A' + k / 100; nm[2] = 'A' + k / 10 % 10; nm[3] = 'A' + k % 10;
  ENSURES(same(q[k]->name, nm) && q[k]->value == v && q[k]->flags == fl && q[k]->type == ty, "later entries leave the entry alone");
  for (i = 0; i < CALLS; i++) if (i != k) ENSURES(q[i] != q[k], "every name has its own entry");
  PROBE("done");
}
