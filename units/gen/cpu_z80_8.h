/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 39
static const struct ccase cases[NCASES + 32] = {
{"rr","(ix+q)",6,0,{221,203,256,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(ix-q)",7,0,{221,203,260,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(iy)",0,0,{253,203,0,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(iy+q)",6,0,{253,203,256,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(iy-q)",7,0,{253,203,260,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","( IX + q )",6,0,{221,203,256,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","ix",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(q)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","af",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","i",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","b",0,0,{203,32,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","c",0,0,{203,33,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","d",0,0,{203,34,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","e",0,0,{203,35,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","h",0,0,{203,36,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","l",0,0,{203,37,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","a",0,0,{203,39,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(hl)",0,0,{203,38,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","( HL )",0,0,{203,38,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(ix)",0,0,{221,203,0,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(ix+q)",6,0,{221,203,256,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(ix-q)",7,0,{221,203,260,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(iy)",0,0,{253,203,0,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(iy+q)",6,0,{253,203,256,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(iy-q)",7,0,{253,203,260,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","( IX + q )",6,0,{221,203,256,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","ix",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(q)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","af",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","i",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","b",0,0,{203,40,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","c",0,0,{203,41,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","d",0,0,{203,42,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
