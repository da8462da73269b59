/* written by lib/cpuspec.py */
#define CPUINIT init6800
#define CPUCODE 1
#define NMNEMO 118
#define NCASES 40
static const struct ccase cases[NCASES + 32] = {
{"eorb","q",0,1,{216,256,-1,-1,-1},{248,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"adca","#q",0,0,{137,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adca","q,x",5,0,{169,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adca","q",0,1,{153,256,-1,-1,-1},{185,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"adcb","#q",0,0,{201,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adcb","q,x",5,0,{233,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adcb","q",0,1,{217,256,-1,-1,-1},{249,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"adda","#q",0,0,{139,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adda","q,x",5,0,{171,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adda","q",0,1,{155,256,-1,-1,-1},{187,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"addb","#q",0,0,{203,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addb","q,x",5,0,{235,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addb","q",0,1,{219,256,-1,-1,-1},{251,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"anda","#q",0,0,{132,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"anda","q,x",5,0,{164,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"anda","q",0,1,{148,256,-1,-1,-1},{180,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"andb","#q",0,0,{196,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"andb","q,x",5,0,{228,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"andb","q",0,1,{212,256,-1,-1,-1},{244,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"bita","#q",0,0,{133,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bita","q,x",5,0,{165,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bita","q",0,1,{149,256,-1,-1,-1},{181,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"bitb","#q",0,0,{197,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bitb","q,x",5,0,{229,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bitb","q",0,1,{213,256,-1,-1,-1},{245,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"ldaa","#q",0,0,{134,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldaa","q,x",5,0,{166,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldaa","q",0,1,{150,256,-1,-1,-1},{182,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"ldab","#q",0,0,{198,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldab","q,x",5,0,{230,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldab","q",0,1,{214,256,-1,-1,-1},{246,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"oraa","#q",0,0,{138,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"oraa","q,x",5,0,{170,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"oraa","q",0,1,{154,256,-1,-1,-1},{186,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"orab","#q",0,0,{202,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"orab","q,x",5,0,{234,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"orab","q",0,1,{218,256,-1,-1,-1},{250,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"staa","q,x",5,0,{167,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"staa","q",0,1,{151,256,-1,-1,-1},{183,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"stab","q,x",5,0,{231,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
