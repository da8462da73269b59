/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 39
static const struct ccase cases[NCASES + 32] = {
{"sra","e",0,0,{203,43,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","h",0,0,{203,44,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","l",0,0,{203,45,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","a",0,0,{203,47,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(hl)",0,0,{203,46,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","( HL )",0,0,{203,46,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(ix)",0,0,{221,203,0,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(ix+q)",6,0,{221,203,256,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(ix-q)",7,0,{221,203,260,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(iy)",0,0,{253,203,0,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(iy+q)",6,0,{253,203,256,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(iy-q)",7,0,{253,203,260,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","( IX + q )",6,0,{221,203,256,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","ix",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(q)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","af",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","i",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","b",0,0,{203,56,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","c",0,0,{203,57,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","d",0,0,{203,58,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","e",0,0,{203,59,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","h",0,0,{203,60,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","l",0,0,{203,61,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","a",0,0,{203,63,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(hl)",0,0,{203,62,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","( HL )",0,0,{203,62,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(ix)",0,0,{221,203,0,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(ix+q)",6,0,{221,203,256,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(ix-q)",7,0,{221,203,260,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(iy)",0,0,{253,203,0,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(iy+q)",6,0,{253,203,256,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(iy-q)",7,0,{253,203,260,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","( IX + q )",6,0,{221,203,256,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","ix",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
