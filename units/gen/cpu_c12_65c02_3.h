/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 2
#define NMNEMO 68
#define NCASES 11
static const struct ccase cases[NCASES + 32] = {
{"bne","q",1,0,{208,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"beq","q",1,0,{240,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bhi","q",1,0,{176,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"blo","q",1,0,{144,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bgt","q",1,0,{16,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ble","q",1,0,{48,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bra","q",1,0,{128,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stz","q",0,1,{100,256,-1,-1,-1},{156,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"stz","q,x",0,1,{116,256,-1,-1,-1},{158,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"tsb","q",0,1,{4,256,-1,-1,-1},{12,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"trb","q",0,1,{20,256,-1,-1,-1},{28,256,257,-1,-1},{-1,-1,-1,-1,-1}},
};
