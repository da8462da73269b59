/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 2
#define NMNEMO 68
#define NCASES 47
static const struct ccase cases[NCASES + 32] = {
{"eor","(q),y",0,1,{81,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","( q ) , Y",0,1,{81,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","@q,y",0,1,{81,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","(q)",0,1,{82,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","@q",0,1,{82,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"eor","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","#q",0,0,{105,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","# q",0,0,{105,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q",0,1,{101,256,-1,-1,-1},{109,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q,x",0,1,{117,256,-1,-1,-1},{125,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q , X",0,1,{117,256,-1,-1,-1},{125,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q,y",0,1,{-1,-1,-1,-1,-1},{121,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","(q,x)",0,1,{97,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","( q , X )",0,1,{97,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","@q,x",0,1,{97,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","(q),y",0,1,{113,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","( q ) , Y",0,1,{113,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","@q,y",0,1,{113,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","(q)",0,1,{114,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","@q",0,1,{114,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","# q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q",0,1,{133,256,-1,-1,-1},{141,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q,x",0,1,{149,256,-1,-1,-1},{157,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q , X",0,1,{149,256,-1,-1,-1},{157,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q,y",0,1,{-1,-1,-1,-1,-1},{153,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","(q,x)",0,1,{129,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","( q , X )",0,1,{129,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","@q,x",0,1,{129,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","(q),y",0,1,{145,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","( q ) , Y",0,1,{145,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","@q,y",0,1,{145,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","(q)",0,1,{146,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","@q",0,1,{146,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","#q",0,0,{169,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","# q",0,0,{169,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
