/* Contracts of insert8 and setpc.  Callees by contract: flushscoderaw (unit
   scode_flush), outputbyte (unit out_byte), error, fatal; fopen is trusted. */
#include "scode.h"

static unsigned long old_pc, old_codelen;
static int old_advance, old_flags, old_mode, listed, opened, open_fails;
static unsigned char X;
static FILE* old_scode;
static char dummyfile[8];

void flushscoderaw(void)
{
  REQUIRES(rawnumber >= 0 && rawnumber <= 16, "flush: at most 16 bytes pending");
  REQUIRES(rawnumber == 0 || scode != NULL, "flush: the object file is open");
  scode_view_pending();
  rawnumber = 0;
  rawstart = pc;
  rawextended = in_int();
}
void outputbyte(int b)
{
  REQUIRES(asmflags & F_CODE_ON, "a byte is listed only while code generation is on");
  REQUIRES((unsigned char) b == X, "the listed byte is the generated byte");
  REQUIRES(pc == old_pc, "the byte is listed at its own address");
  REQUIRES(advance == old_advance, "the byte is listed before the statement length grows");
  listed++;
}
void error(char* s)
{
  ENSURES(!(old_flags & F_ORG_GV), "insert8 fails only if no origin was given");
  ENSURES(rawnumber == v0_n && w_n == 0 && pc == old_pc && codelen == old_codelen && advance == old_advance
          && scode == old_scode, "a refused byte changes nothing");
  PROBE("error path");
  END();
}
void fatal(char* s)
{
  ENSURES(opened && open_fails, "fatal only if the object file can not be opened");
  PROBE("fatal path");
  END();
}
#ifndef VNATIVE
FILE* fopen(const char* n, const char* m)
#else
FILE* v_fopen(const char* n, const char* m)
#endif
{
  REQUIRES(n == scodename && m[0] == 'w' && m[1] == 0, "the object file is opened under its name for writing");
  REQUIRES(!opened && scode == NULL, "the object file is opened once");
  REQUIRES(!(asmflags & F_NOCODE), "no object file is opened without request");
  opened = 1;
  open_fails = in_bool();
  rawextended = 0;
  return open_fails ? NULL : (FILE*) dummyfile;
}

static void body(void)
{
  int record;
  if (scode == NULL) g_upper = 0;
  scode_snapshot();
  old_pc = pc; old_codelen = codelen; old_advance = advance; old_flags = asmflags; old_scode = scode;
  listed = opened = open_fails = 0;
#ifdef SETPC
  {
    unsigned long a = (unsigned long) in_long();
    ASSUME(a <= M32);
    setpc(a);
    ENSURES(pc == a, "setpc sets the address");
    ENSURES(codelen == old_codelen && advance == old_advance && listed == 0, "setpc generates nothing");
    record = 0;
    PROBE("setpc returns");
  }
#else
  X = in_uchar();
  /* it is recorded if code generation is on and the file is or can be opened */
  record = (old_flags & F_CODE_ON) && (scode != NULL || !(old_flags & F_NOCODE));
  e_n = v0_n + (record ? 1 : 0); e_a = pc; e_b = X;
  insert8(X);
  ENSURES(old_flags & F_ORG_GV, "insert8 succeeds only after an origin was given");
  ENSURES(pc == old_pc + 1, "insert8 advances the address by one");
  ENSURES(advance == old_advance + 1, "insert8 counts one byte for the statement");
  ENSURES(codelen == old_codelen + ((old_flags & F_CODE_ON) ? 1 : 0), "insert8 counts generated code only");
  ENSURES(listed == ((old_flags & F_CODE_ON) ? 1 : 0), "a generated byte is listed once");
  ENSURES(scode != NULL || (old_flags & F_NOCODE), "the object file is open after the first byte");
  if (record) PROBE("byte recorded"); else PROBE("byte not recorded");
#endif
  ENSURES(asmflags == old_flags, "flags are unchanged");
  ENSURES(old_scode == NULL || scode == old_scode, "an open object file stays");
  scode_inv_assert();
  scode_view_pending();
  ENSURES(w_n == e_n, "no byte is lost");
}

void harness(void)
{
  int i;
  static char name[] = "o.hex";
  scode_inv_assume();
  scodename = name;
#ifndef VNATIVE
  scode = in_bool() ? (FILE*) dummyfile : NULL;
#else
  scode = (in_bool(), (FILE*) dummyfile);
#endif
  ASSUME(rawnumber == 0 || scode != NULL);
  body();
}
