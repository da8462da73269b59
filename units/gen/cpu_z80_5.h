/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 39
static const struct ccase cases[NCASES + 32] = {
{"res","q,d",2,0,{203,130,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,e",2,0,{203,131,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,h",2,0,{203,132,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,l",2,0,{203,133,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,a",2,0,{203,135,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,(hl)",2,0,{203,134,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q , (ix)",2,0,{221,203,0,134,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q , (ix+w)",8,0,{221,203,258,134,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q , (iy)",2,0,{253,203,0,134,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q , (iy+w)",8,0,{253,203,258,134,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q , ( IX + w )",8,0,{221,203,258,134,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,w",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,(w)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","a,b",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","b",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,b",2,0,{203,192,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,c",2,0,{203,193,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,d",2,0,{203,194,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,e",2,0,{203,195,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,h",2,0,{203,196,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,l",2,0,{203,197,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,a",2,0,{203,199,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,(hl)",2,0,{203,198,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q , (ix)",2,0,{221,203,0,198,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q , (ix+w)",8,0,{221,203,258,198,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q , (iy)",2,0,{253,203,0,198,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q , (iy+w)",8,0,{253,203,258,198,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q , ( IX + w )",8,0,{221,203,258,198,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,w",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,(w)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","a,b",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","b",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","b",0,0,{203,0,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
