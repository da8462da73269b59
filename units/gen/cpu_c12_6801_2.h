/* written by lib/cpuspec.py */
#define CPUINIT init6800
#define CPUCODE 1
#define NMNEMO 118
#define NCASES 40
static const struct ccase cases[NCASES + 32] = {
{"stab","q",0,1,{215,256,-1,-1,-1},{247,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","#q",0,0,{140,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q,x",5,0,{172,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q",0,1,{156,256,-1,-1,-1},{188,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"lds","#q",0,0,{142,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lds","q,x",5,0,{174,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lds","q",0,1,{158,256,-1,-1,-1},{190,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"sts","q,x",5,0,{175,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sts","q",0,1,{159,256,-1,-1,-1},{191,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","#q",0,0,{206,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q,x",5,0,{238,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q",0,1,{222,256,-1,-1,-1},{254,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q,x",5,0,{239,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q",0,1,{223,256,-1,-1,-1},{255,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"jsr","q,x",5,0,{173,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jsr","q",0,1,{-1,-1,-1,-1,-1},{189,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"neg","q,x",5,0,{96,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"neg","q",0,1,{-1,-1,-1,-1,-1},{112,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"com","q,x",5,0,{99,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"com","q",0,1,{-1,-1,-1,-1,-1},{115,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q,x",5,0,{100,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q",0,1,{-1,-1,-1,-1,-1},{116,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q,x",5,0,{102,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q",0,1,{-1,-1,-1,-1,-1},{118,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"asr","q,x",5,0,{103,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asr","q",0,1,{-1,-1,-1,-1,-1},{119,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","q,x",5,0,{104,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","q",0,1,{-1,-1,-1,-1,-1},{120,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q,x",5,0,{105,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q",0,1,{-1,-1,-1,-1,-1},{121,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"dec","q,x",5,0,{106,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"dec","q",0,1,{-1,-1,-1,-1,-1},{122,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q,x",5,0,{108,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q",0,1,{-1,-1,-1,-1,-1},{124,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"tst","q,x",5,0,{109,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"tst","q",0,1,{-1,-1,-1,-1,-1},{125,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","q,x",5,0,{110,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","q",0,1,{-1,-1,-1,-1,-1},{126,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"clr","q,x",5,0,{111,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"clr","q",0,1,{-1,-1,-1,-1,-1},{127,257,256,-1,-1},{-1,-1,-1,-1,-1}},
};
