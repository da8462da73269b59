/* searchlabel() and makelabel() on a search tree of any shape, by loop invariant.
   A name is represented by its rank in the order of names.  The tree is unfolded
   lazily: strncmp(), called once per node visited, picks the rank of that node
   between the bounds the search tree property gives, and its links. */
#include "dcl.h"
#include "label.h"
#include "verif.h"
struct label N;                   /* the node visited */
long g_rank, g_lo, g_hi;          /* searched name; names below the current link are between lo and hi */
int has0, g_found;                /* the name was entered; it was met */
int g_link;                       /* the current link: 0 lroot, 1 N.left, 2 N.right */
extern int segment;
int strncmp(const char* a, const char* b, size_t n)
{
  long x = in_long();
  REQUIRES(b == N.name && n == LABLEN, "the name of the node is compared");
  ASSUME(x > g_lo && x < g_hi);
  ASSUME(x != g_rank || has0);               /* names occur once */
  N.left = in_bool() ? &N : (struct label*) 0;
  N.right = in_bool() ? &N : (struct label*) 0;
  if (x == g_rank) { g_found = 1; return 0; }
  if (x < g_rank)
  {
    if (has0) ASSUME(N.right != 0);
    g_lo = x; g_link = 2;
    return in_range(1, 255);
  }
  if (has0) ASSUME(N.left != 0);
  g_hi = x; g_link = 1;
  return in_range(-255, -1);
}
#ifdef MAKE
/* fresh memory, of the type the entries are kept in; cleared when asked for */
struct labelarray { int position; struct label label[100]; };
static struct labelarray pool;
static int g_block, g_zero;
extern struct labelarray* labelarray_inst;
/* the name is copied (content: symmake, symname) */
static const char* g_dst;
char* strncpy(char* d, const char* s, size_t n) { REQUIRES(n == LABLEN, "the whole name is kept"); g_dst = d; return d; }
void* __CPROVER_allocate(size_t, int);
void* malloc(size_t n) { g_block++; if (n == sizeof pool) return &pool; return __CPROVER_allocate(n, 0); }
void* calloc(size_t n, size_t m) { g_zero++; return malloc(n * m); }
void* memset(void* p, int c, size_t n) { REQUIRES(c == 0, "the block of entries is cleared"); g_zero++; return p; }
#ifndef P
#define P -1
#endif
#endif
void fatal(char* s) { ENSURES(has0, "a new name is entered"); END(); }
void harness(void)
{
  struct label* q;
  g_rank = in_long(); g_lo = -0x7fffffffffffffffL; g_hi = 0x7fffffffffffffffL;
  ASSUME(g_rank > g_lo && g_rank < g_hi);
  lroot = in_bool() ? &N : (struct label*) 0;
  has0 = lroot ? in_bool() : 0;
  g_found = 0; g_link = 0;
#ifdef MAKE
  ASSUME(!has0);
  /* the block of entries in use: none, or P entries of it are taken */
  labelarray_inst = P < 0 ? (struct labelarray*) 0 : &pool;
  g_block = g_zero = 0; g_dst = 0;
  pool.position = P < 0 ? 0 : P;
  q = makelabel("abc", UNDEF | NOREDEF, L_ABSOLUTE);
  ENSURES(q != &N && q == (g_link == 0 ? lroot : g_link == 1 ? N.left : N.right), "a new name is entered where the search for it ends");
  ENSURES(g_rank > g_lo && g_rank < g_hi, "the tree stays a search tree");
  ENSURES(g_dst == q->name, "the entry gets the name");
  ENSURES(q == &pool.label[P < 0 ? 0 : P], "the next free entry is taken");
  ENSURES(P == 99 ? labelarray_inst != &pool : labelarray_inst == &pool && pool.position == (P < 0 ? 1 : P + 1), "the entry is taken once");
  ENSURES(g_block == g_zero, "new entries are cleared");
  ENSURES(q->left == 0 && q->right == 0, "a new name has no successors");
#else
  q = searchlabel("abc");
  ENSURES((q != 0) == (has0 != 0), "a name is found exactly if it was entered");
  ENSURES(q == 0 || (q == &N && g_found), "the entry found is that of the name");
#endif
  PROBE("done");
}
