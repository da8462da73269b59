/* written by lib/cpuspec.py */
#define CPUINIT init6502
#define CPUCODE 2
#define NMNEMO 68
#define NCASES 47
static const struct ccase cases[NCASES + 32] = {
{"lda","q",0,1,{165,256,-1,-1,-1},{173,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q,x",0,1,{181,256,-1,-1,-1},{189,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q , X",0,1,{181,256,-1,-1,-1},{189,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q,y",0,1,{-1,-1,-1,-1,-1},{185,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","(q,x)",0,1,{161,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","( q , X )",0,1,{161,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","@q,x",0,1,{161,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","(q),y",0,1,{177,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","( q ) , Y",0,1,{177,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","@q,y",0,1,{177,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","(q)",0,1,{178,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","@q",0,1,{178,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"lda","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","#q",0,0,{201,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","# q",0,0,{201,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q",0,1,{197,256,-1,-1,-1},{205,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q,x",0,1,{213,256,-1,-1,-1},{221,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q , X",0,1,{213,256,-1,-1,-1},{221,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q,y",0,1,{-1,-1,-1,-1,-1},{217,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","(q,x)",0,1,{193,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","( q , X )",0,1,{193,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","@q,x",0,1,{193,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","(q),y",0,1,{209,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","( q ) , Y",0,1,{209,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","@q,y",0,1,{209,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","(q)",0,1,{210,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","@q",0,1,{210,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","x",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cmp","q,a",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","A",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","#q",0,0,{233,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","# q",0,0,{233,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q",0,1,{229,256,-1,-1,-1},{237,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q,x",0,1,{245,256,-1,-1,-1},{253,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q , X",0,1,{245,256,-1,-1,-1},{253,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","q,y",0,1,{-1,-1,-1,-1,-1},{249,256,257,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","(q,x)",0,1,{225,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","( q , X )",0,1,{225,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","@q,x",0,1,{225,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","(q),y",0,1,{241,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","( q ) , Y",0,1,{241,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","@q,y",0,1,{241,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","(q)",0,1,{242,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
