/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 2
#define NMNEMO 68
#define NCASES 40
static const struct ccase cases[NCASES + 32] = {
{"asl","q,x",0,1,{22,256,-1,-1,-1},{30,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q",0,1,{38,256,-1,-1,-1},{46,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q,x",0,1,{54,256,-1,-1,-1},{62,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q",0,1,{70,256,-1,-1,-1},{78,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q,x",0,1,{86,256,-1,-1,-1},{94,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q",0,1,{102,256,-1,-1,-1},{110,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q,x",0,1,{118,256,-1,-1,-1},{126,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","#q",0,0,{162,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q",0,1,{166,256,-1,-1,-1},{174,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q,y",0,1,{182,256,-1,-1,-1},{190,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","#q",0,0,{160,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","q",0,1,{164,256,-1,-1,-1},{172,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","q,x",0,1,{180,256,-1,-1,-1},{188,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q",0,1,{134,256,-1,-1,-1},{142,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q,y",0,1,{150,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","q",0,1,{132,256,-1,-1,-1},{140,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","q,x",0,1,{148,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","#q",0,0,{224,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q",0,1,{228,256,-1,-1,-1},{236,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","#q",0,0,{192,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","q",0,1,{196,256,-1,-1,-1},{204,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q",0,1,{230,256,-1,-1,-1},{238,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q,x",0,1,{246,256,-1,-1,-1},{254,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"dec","q",0,1,{198,256,-1,-1,-1},{206,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"dec","q,x",0,1,{214,256,-1,-1,-1},{222,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"bit","#q",0,0,{137,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bit","q",0,1,{36,256,-1,-1,-1},{44,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"bit","q,x",0,1,{52,256,-1,-1,-1},{60,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","q",0,1,{-1,-1,-1,-1,-1},{76,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","(q,x)",0,1,{-1,-1,-1,-1,-1},{124,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","@q,x",0,1,{-1,-1,-1,-1,-1},{124,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","(q)",0,1,{-1,-1,-1,-1,-1},{108,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"jmp","@q",0,1,{-1,-1,-1,-1,-1},{108,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"jsr","q",0,1,{-1,-1,-1,-1,-1},{32,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"bpl","q",1,0,{16,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bmi","q",1,0,{48,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bvc","q",1,0,{80,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bvs","q",1,0,{112,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bcc","q",1,0,{144,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bcs","q",1,0,{176,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
