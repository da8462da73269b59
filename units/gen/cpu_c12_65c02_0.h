/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 2
#define NMNEMO 68
#define NCASES 40
static const struct ccase cases[NCASES + 32] = {
{"ora","#q",0,0,{9,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","q",0,1,{5,256,-1,-1,-1},{13,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","q,x",0,1,{21,256,-1,-1,-1},{29,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","q,y",0,1,{-1,-1,-1,-1,-1},{25,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","(q,x)",0,1,{1,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","@q,x",0,1,{1,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","(q),y",0,1,{17,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","@q,y",0,1,{17,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","(q)",0,1,{18,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ora","@q",0,1,{18,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","#q",0,0,{41,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","q",0,1,{37,256,-1,-1,-1},{45,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"and","q,x",0,1,{53,256,-1,-1,-1},{61,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"and","q,y",0,1,{-1,-1,-1,-1,-1},{57,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"and","(q,x)",0,1,{33,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","@q,x",0,1,{33,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","(q),y",0,1,{49,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","@q,y",0,1,{49,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","(q)",0,1,{50,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","@q",0,1,{50,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","#q",0,0,{73,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","q",0,1,{69,256,-1,-1,-1},{77,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","q,x",0,1,{85,256,-1,-1,-1},{93,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","q,y",0,1,{-1,-1,-1,-1,-1},{89,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","(q,x)",0,1,{65,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","@q,x",0,1,{65,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","(q),y",0,1,{81,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","@q,y",0,1,{81,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","(q)",0,1,{82,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","@q",0,1,{82,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","#q",0,0,{105,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q",0,1,{101,256,-1,-1,-1},{109,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q,x",0,1,{117,256,-1,-1,-1},{125,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q,y",0,1,{-1,-1,-1,-1,-1},{121,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","(q,x)",0,1,{97,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","@q,x",0,1,{97,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","(q),y",0,1,{113,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","@q,y",0,1,{113,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","(q)",0,1,{114,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","@q",0,1,{114,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
