/* printf_model.c: executable contracts of the printf family, for the verifier
   only.  Conversions: %d %i %u %x %X %c %s %% with flags 0, width, l.
   Characters go to v_putc(stream, c), which the unit defines; the string
   variants write to their buffer.  */
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>

struct v_sink { char* s; size_t n, room; FILE* f; };
#ifdef V_STREAM
extern void v_putc(FILE* f, char c);
#endif

static void sink(struct v_sink* k, char c)
{
  if (k->s)
  {
    if (k->n < k->room) k->s[k->n] = c;
  }
#ifdef V_STREAM
  else if (k->f) v_putc(k->f, c);
#endif
  k->n++;
}
static void number(struct v_sink* k, unsigned long u, int neg, int base, int up, int width, int zero)
{
  char t[24];
  int n = 0, i;
  do
  {
    int d = (int)(u % (unsigned long) base);
    t[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10);
    u /= (unsigned long) base;
  } while (u);
  if (neg && !zero) t[n++] = '-';
  if (neg && zero) { sink(k, '-'); width--; }
  for (i = n; i < width; i++) sink(k, zero ? '0' : ' ');
  while (n > 0) sink(k, t[--n]);
}
static void v_format(struct v_sink* k, const char* f, va_list ap)
{
  while (*f)
  {
    int zero = 0, width = 0, lng = 0, i;
    if (*f != '%') { sink(k, *f++); continue; }
    f++;
    if (*f == '0') { zero = 1; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    while (*f == 'l') { lng = 1; f++; }
    switch (*f)
    {
    case 'd': case 'i':
      {
        long v = lng ? va_arg(ap, long) : va_arg(ap, int);
        number(k, v < 0 ? 0UL - (unsigned long) v : (unsigned long) v, v < 0, 10, 0, width, zero);
        break;
      }
    case 'u': case 'x': case 'X':
      {
        unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        number(k, v, 0, *f == 'u' ? 10 : 16, *f == 'X', width, zero);
        break;
      }
    case 'c':
      { int c = va_arg(ap, int); for (i = 1; i < width; i++) sink(k, ' '); sink(k, (char) c); break; }
    case 's':
      {
        char* s = va_arg(ap, char*);
        int n = 0;
        if (width > 0) { while (s[n]) n++; for (; n < width; n++) sink(k, ' '); }
        while (*s) sink(k, *s++);
        break;
      }
    case '%': sink(k, '%'); break;
    default: __CPROVER_assert(0, "printf_model: unknown conversion"); break;
    }
    f++;
  }
}
int sprintf(char* s, const char* f, ...)
{
  va_list ap;
  struct v_sink k = { s, 0, (size_t) -1, 0 };
  va_start(ap, f);
  v_format(&k, f, ap);
  va_end(ap);
  s[k.n] = 0;
  return (int) k.n;
}
int snprintf(char* s, size_t room, const char* f, ...)
{
  va_list ap;
  struct v_sink k = { s, 0, room ? room - 1 : 0, 0 };
  va_start(ap, f);
  v_format(&k, f, ap);
  va_end(ap);
  if (room) s[k.n < room - 1 ? k.n : room - 1] = 0;
  return (int) k.n;
}
#ifdef V_STREAM
int fprintf(FILE* fp, const char* f, ...)
{
  va_list ap;
  struct v_sink k = { 0, 0, 0, fp };
  va_start(ap, f);
  v_format(&k, f, ap);
  va_end(ap);
  return (int) k.n;
}
int printf(const char* f, ...)
{
  va_list ap;
  struct v_sink k = { 0, 0, 0, stdout };
  va_start(ap, f);
  v_format(&k, f, ap);
  va_end(ap);
  return (int) k.n;
}
int fputs(const char* s, FILE* fp) { while (*s) v_putc(fp, *s++); return 1; }
int fputc(int c, FILE* fp) { v_putc(fp, (char) c); return c; }
int putc(int c, FILE* fp) { v_putc(fp, (char) c); return c; }
int putchar(int c) { v_putc(stdout, (char) c); return c; }
int puts(const char* s) { while (*s) v_putc(stdout, *s++); v_putc(stdout, '\n'); return 1; }
size_t fwrite(const void* p, size_t a, size_t b, FILE* fp)
{ size_t i; for (i = 0; i < a * b; i++) v_putc(fp, ((const char*) p)[i]); return b; }
#endif
