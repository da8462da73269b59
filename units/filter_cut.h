/* loop cut points of filter(); included before filter.c */
extern void v_cut_main(char* s, char* fil, char* starts, char* startf, int quote);
extern void v_cut_blanks(char* s);
extern void v_cut_rest(char* s);
extern int v_seen_main, v_seen_blanks, v_seen_rest;
extern char *v_s, *v_fil, *v_starts, *v_startf;
extern int v_quote, v_nargs;
#define CRASM_CUT_filter \
  v_cut_main(s, fil, starts, startf, quote); \
  va_end(ap); va_start(ap, fil); \
  if (v_nargs > 0) (void) va_arg(ap, char**); \
  if (v_nargs > 1) (void) va_arg(ap, char**); \
  if (v_nargs > 2) (void) va_arg(ap, char**); \
  s = v_s; fil = v_fil; starts = v_starts; startf = v_startf; quote = v_quote;
#define CRASM_CUT_filter_blanks v_cut_blanks(s); s = v_s;
#define CRASM_CUT_filter_rest v_cut_rest(s); s = v_s;
