/* filter() by contract, for texts of at most FS_LEN-1 characters */
#include <stdarg.h>
#include "filter_spec.h"
#ifndef FS_LEN
#define FS_LEN 20
#endif
#ifndef VNATIVE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#endif
/* separate arrays: CBMC keeps them apart and concrete */
static char fs_p0[FS_LEN], fs_p1[FS_LEN], fs_p2[FS_LEN], fs_p3[FS_LEN], fs_p4[FS_LEN], fs_p5[FS_LEN], fs_p6[FS_LEN], fs_p7[FS_LEN];
static char* const fs_pool[8] = { fs_p0, fs_p1, fs_p2, fs_p3, fs_p4, fs_p5, fs_p6, fs_p7 };
static int fs_used;
void zerobuffer(void) { fs_used = 0; }
int filter(char* s, char* fil, ...)
{
  static struct fpiece pc_[4];
  va_list ap;
  int n, k, j;
  n = fs_match(s ? s : "", fil, pc_);
  if (!n) return 0;
  va_start(ap, fil);
  for (k = 0; k < n - 1; k++)
  {
    char** out = va_arg(ap, char**);
    REQUIRES(fs_used < 8 && pc_[k].end - pc_[k].start < FS_LEN, "the stand-in for the pattern buffer is large enough");
    char* d = fs_pool[fs_used++];
    for (j = pc_[k].start; j < pc_[k].end; j++) d[j - pc_[k].start] = s[j];
    d[j - pc_[k].start] = 0;
    *out = d;
  }
  va_end(ap);
  return 1;
}
#ifndef VNATIVE
#pragma CPROVER check pop
#endif
