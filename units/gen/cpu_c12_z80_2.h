/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 9
static const struct ccase cases[NCASES + 32] = {
{"ld","(ix-q),w",7,0,{221,54,260,258,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","a,(q)",0,0,{58,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(q),bc",0,0,{237,67,256,257,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","sp,q",0,0,{49,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","sp,(q)",0,0,{237,123,256,257,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(q),sp",0,0,{237,115,256,257,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","ix,q",0,0,{221,33,256,257,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","ix,(q)",0,0,{221,42,256,257,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(q),ix",0,0,{221,34,256,257,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
