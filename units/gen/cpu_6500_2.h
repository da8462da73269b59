/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 0
#define NMNEMO 60
#define NCASES 41
static const struct ccase cases[NCASES + 32] = {
{"sbc","q,y",0,1,{-1,-1,-1,-1,-1},{249,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","(q,x)",0,1,{225,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","(q),y",0,1,{241,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl",0,0,0,{10,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","A",0,0,{10,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","q",0,1,{6,256,-1,-1,-1},{14,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","q,x",0,1,{22,256,-1,-1,-1},{30,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"asl","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol",0,0,0,{42,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","A",0,0,{42,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q",0,1,{38,256,-1,-1,-1},{46,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q,x",0,1,{54,256,-1,-1,-1},{62,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rol","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr",0,0,0,{74,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","A",0,0,{74,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q",0,1,{70,256,-1,-1,-1},{78,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q,x",0,1,{86,256,-1,-1,-1},{94,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q,y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","(q,x)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","(q),y",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lsr","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ror","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
