/* written by lib/cpuspec.py */
#define CPUINIT init6800
#define CPUCODE 1
#define NMNEMO 118
#define NCASES 37
static const struct ccase cases[NCASES + 32] = {
{"clr","q,y",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd","#q",0,0,{131,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd","# q",0,0,{131,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd","q,x",5,0,{163,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd","q , X",5,0,{163,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd",",x",0,0,{163,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd",", X",0,0,{163,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"subd","q",0,1,{147,256,-1,-1,-1},{179,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"subd","q,y",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd","#q",0,0,{195,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd","# q",0,0,{195,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd","q,x",5,0,{227,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd","q , X",5,0,{227,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd",",x",0,0,{227,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd",", X",0,0,{227,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"addd","q",0,1,{211,256,-1,-1,-1},{243,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"addd","q,y",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd","#q",0,0,{204,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd","# q",0,0,{204,257,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd","q,x",5,0,{236,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd","q , X",5,0,{236,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd",",x",0,0,{236,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd",", X",0,0,{236,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd","q",0,1,{220,256,-1,-1,-1},{252,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"ldd","q,y",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std",0,0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std","#q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std","# q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std","q,x",5,0,{237,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std","q , X",5,0,{237,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std",",x",0,0,{237,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std",", X",0,0,{237,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"std","q",0,1,{221,256,-1,-1,-1},{253,257,256,-1,-1},{-1,-1,-1,-1,-1}},
{"std","q,y",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
