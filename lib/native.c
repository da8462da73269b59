/* native.c: driver for the gcc build of a unit.
     unit replay FILE            one run with the recorded inputs
     unit fuzz SEED SECS OUT     random runs until one fails; its inputs go to OUT
   exit: 0 held, 1 an obligation failed, 77 inputs outside the precondition,
   anything else a crash (sanitizer).  */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>

extern void harness(void);
#define MAXIN 200000
struct shared { long n; long v[MAXIN]; } *sh;
static int mode;                 /* 0 replay, 1 fuzz */
static unsigned long rs;
static int flavour;

void v_end(int code) { fflush(stdout); _exit(code); }
void v_fail(const char* kind, const char* msg, const char* file, int line)
{
  fprintf(stdout, "FAILED OBLIGATION %s%s (%s:%d)\n", kind, msg, file, line);
  fflush(stdout);
  _exit(1);
}
static unsigned long rnd(void)
{
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs * 2685821657736338717UL >> 11;
}
static long pos;
static long record(long v)
{
  if (sh->n < MAXIN) sh->v[sh->n++] = v;
  return v;
}
static long interesting(void)
{
  static const long t[] = { 0, 1, 2, 3, -1, -2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, -127, -128, -129,
    255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000L,
    0xffffffffL, 0x100000000L, (long)0x8000000000000000UL, 0x7fffffffffffffffL };
  long v = t[rnd() % (sizeof t / sizeof *t)];
  switch (rnd() % 6) { case 0: v += (long)(rnd() % 5) - 2; break; case 1: v = -v; break; }
  return v;
}
long v_input(int kind, long lo, long hi)
{
  long v = 0;
  if (mode == 0)
  {
    if (pos < sh->n) return sh->v[pos++];
    return kind == 0 ? lo : 0;
  }
  switch (kind)
  {
  case 1: v = rnd() & 1; break;
  case 8: v = rnd() % 4 ? (long)(rnd() & 255) : (interesting() & 255); break;
  case 0:
    {
      unsigned long span = (unsigned long)hi - (unsigned long)lo + 1;
      switch (rnd() % 4)
      {
      case 0: v = lo + (long)(span ? rnd() % (span > 4 ? 4 : span) : 0); break;
      case 1: v = hi - (long)(span ? rnd() % (span > 4 ? 4 : span) : 0); break;
      default: v = lo + (long)(span ? rnd() % span : rnd()); break;
      }
      break;
    }
  default:
    switch (rnd() % 4)
    {
    case 0: v = (long)(rnd() << 32 ^ rnd()); break;
    case 1: v = (long)(rnd() & 0xffff); break;
    default: v = interesting(); break;
    }
    if (kind == 32) v = (int) v;
  }
  return record(v);
}
void v_input_str(char* s, int n, const char* hint)
{
  int i, len;
  if (mode == 0)
  {
    for (i = 0; i < n; i++) s[i] = (char) v_input(8, 0, 255);
    s[n] = 0;
    return;
  }
  switch (rnd() % 4)
  {
  case 0: len = (int)(rnd() % (n + 1)); break;
  case 1: len = (int)(rnd() % ((n > 12 ? 12 : n) + 1)); break;
  case 2: len = n - (int)(rnd() % ((n > 3 ? 3 : n) + 1)); break;
  default: len = (int)(rnd() % ((n > 40 ? 40 : n) + 1)); break;
  }
  for (i = 0; i < n; i++)
  {
    unsigned char c = 0;
    if (i < len)
    {
      if (hint && *hint && rnd() % 50) c = (unsigned char) hint[rnd() % strlen(hint)];
      else c = (unsigned char)(rnd() % 5 ? 32 + rnd() % 95 : rnd() % 256);
    }
    s[i] = (char) c;
    record((char) c);
  }
  s[n] = 0;
}
int main(int argc, char** argv)
{
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc >= 3 && !strcmp(argv[1], "replay"))
  {
    FILE* f = fopen(argv[2], "r");
    long v;
    if (!f) { perror(argv[2]); return 99; }
    while (sh->n < MAXIN && fscanf(f, "%ld", &v) == 1) sh->v[sh->n++] = v;
    fclose(f);
    harness();
    printf("HELD\n");
    return 0;
  }
  if (argc >= 5 && !strcmp(argv[1], "fuzz"))
  {
    unsigned long seed = strtoul(argv[2], 0, 10);
    double secs = atof(argv[3]);
    long runs = 0, held = 0, out = 0, i;
    time_t t0 = time(0);
    mode = 1;
    while (difftime(time(0), t0) < secs)
    {
      int st;
      pid_t p;
      runs++;
      sh->n = 0;
      p = fork();
      if (p == 0)
      {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        rs = (seed * 0x9E3779B97F4A7C15UL) ^ (runs * 0xD1B54A32D192ED03UL) ^ 88172645463325252UL;
        rnd(); rnd(); rnd();
        alarm(5);
        harness();
        _exit(0);
      }
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { held++; continue; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { out++; continue; }
      {
        FILE* f = fopen(argv[4], "w");
        for (i = 0; i < sh->n; i++) fprintf(f, "%ld\n", sh->v[i]);
        fclose(f);
        printf("FOUND runs=%ld held=%ld outside=%ld\n", runs, held, out);
        return 1;
      }
    }
    printf("NONE runs=%ld held=%ld outside=%ld\n", runs, held, out);
    return 0;
  }
  return 99;
}
