/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 39
static const struct ccase cases[NCASES + 32] = {
{"rlc","c",0,0,{203,1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","d",0,0,{203,2,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","e",0,0,{203,3,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","h",0,0,{203,4,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","l",0,0,{203,5,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","a",0,0,{203,7,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(hl)",0,0,{203,6,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","( HL )",0,0,{203,6,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(ix)",0,0,{221,203,0,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(ix+q)",6,0,{221,203,256,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(ix-q)",7,0,{221,203,260,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(iy)",0,0,{253,203,0,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(iy+q)",6,0,{253,203,256,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(iy-q)",7,0,{253,203,260,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","( IX + q )",6,0,{221,203,256,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","ix",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(q)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","af",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","i",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","b",0,0,{203,8,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","c",0,0,{203,9,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","d",0,0,{203,10,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","e",0,0,{203,11,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","h",0,0,{203,12,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","l",0,0,{203,13,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","a",0,0,{203,15,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(hl)",0,0,{203,14,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","( HL )",0,0,{203,14,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(ix)",0,0,{221,203,0,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(ix+q)",6,0,{221,203,256,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(ix-q)",7,0,{221,203,260,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(iy)",0,0,{253,203,0,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(iy+q)",6,0,{253,203,256,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(iy-q)",7,0,{253,203,260,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","( IX + q )",6,0,{221,203,256,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
