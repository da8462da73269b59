/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 0
#define NMNEMO 60
#define NCASES 41
static const struct ccase cases[NCASES + 32] = {
{"stx","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","q",0,1,{132,256,-1,-1,-1},{140,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","q,x",0,1,{148,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sty","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","#q",0,0,{224,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q",0,1,{228,256,-1,-1,-1},{236,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q,x",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpx","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","#q",0,0,{192,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","q",0,1,{196,256,-1,-1,-1},{204,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","q,x",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cpy","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q",0,1,{230,256,-1,-1,-1},{238,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q,x",0,1,{246,256,-1,-1,-1},{254,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
