/* libc_model.c: contracts of the C library functions the assembler calls, as
   executable definitions, for the verifier only (the C locale; the native
   build uses the real library).  /verif/bin/selftest.py compares the character
   classes with the real ones. */
#include <stddef.h>
int isdigit(int c)  { return c >= '0' && c <= '9'; }
int isupper(int c)  { return c >= 'A' && c <= 'Z'; }
int islower(int c)  { return c >= 'a' && c <= 'z'; }
int isalpha(int c)  { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c)  { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isprint(int c)  { return c >= 32 && c <= 126; }
int isspace(int c)  { return c == ' ' || (c >= 9 && c <= 13); }
int isascii(int c)  { return c >= 0 && c <= 127; }
int toupper(int c)  { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int tolower(int c)  { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
