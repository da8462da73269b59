/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 0
#define NMNEMO 60
#define NCASES 41
static const struct ccase cases[NCASES + 32] = {
{"ror","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q,x",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","#q",0,0,{162,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q",0,1,{166,256,-1,-1,-1},{174,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q,x",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q,y",0,1,{182,256,-1,-1,-1},{190,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldx","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","#q",0,0,{160,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","q",0,1,{164,256,-1,-1,-1},{172,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","q,x",0,1,{180,256,-1,-1,-1},{188,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldy","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q",0,1,{134,256,-1,-1,-1},{142,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q,x",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","q,y",0,1,{150,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"stx","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
