/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 1
#define KNOWN
static const struct ccase cases[NCASES + 32] = {
{"cpdr",0,9,0,{237,185,-1,-1,-1},{-1,-1,-1,-1,-1},{237,137,-1,-1,-1}},
};
