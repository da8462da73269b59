/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 0
#define NMNEMO 60
#define NCASES 41
static const struct ccase cases[NCASES + 32] = {
{"adc","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q",0,1,{133,256,-1,-1,-1},{141,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q,x",0,1,{149,256,-1,-1,-1},{157,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q,y",0,1,{-1,-1,-1,-1,-1},{153,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","(q,x)",0,1,{129,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","(q),y",0,1,{145,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sta","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","#q",0,0,{169,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q",0,1,{165,256,-1,-1,-1},{173,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q,x",0,1,{181,256,-1,-1,-1},{189,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q,y",0,1,{-1,-1,-1,-1,-1},{185,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","(q,x)",0,1,{161,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","(q),y",0,1,{177,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","#q",0,0,{201,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q",0,1,{197,256,-1,-1,-1},{205,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q,x",0,1,{213,256,-1,-1,-1},{221,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q,y",0,1,{-1,-1,-1,-1,-1},{217,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","(q,x)",0,1,{193,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","(q),y",0,1,{209,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","(q)",0,1,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","#q",0,0,{233,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q",0,1,{229,256,-1,-1,-1},{237,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q,x",0,1,{245,256,-1,-1,-1},{253,256,257,-1,-1},{-1,-1,-1,-1,-1}},
};
