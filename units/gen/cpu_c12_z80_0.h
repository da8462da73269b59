/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 40
static const struct ccase cases[NCASES + 32] = {
{"im","q",4,0,{237,70,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rst","q",3,0,{199,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"djnz","q",1,0,{16,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jr","q",1,0,{24,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jr","nz,q",1,0,{32,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jr","z,q",1,0,{40,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jr","nc,q",1,0,{48,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jr","c,q",1,0,{56,261,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","q",0,0,{195,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","nz,q",0,0,{196,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","z,q",0,0,{204,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","nc,q",0,0,{212,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","c,q",0,0,{220,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","po,q",0,0,{228,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","p,q",0,0,{244,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","m,q",0,0,{252,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","q",0,0,{205,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"in","a,(q)",0,0,{219,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"out","(q),a",0,0,{211,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bit","q,b",2,0,{203,64,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bit","q,a",2,0,{203,71,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"bit","q,(hl)",2,0,{203,70,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,b",2,0,{203,128,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,a",2,0,{203,135,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"res","q,(hl)",2,0,{203,134,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,b",2,0,{203,192,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,a",2,0,{203,199,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"set","q,(hl)",2,0,{203,198,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(ix+q)",6,0,{221,203,256,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rlc","(ix-q)",7,0,{221,203,260,6,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(ix+q)",6,0,{221,203,256,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rrc","(ix-q)",7,0,{221,203,260,14,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rl","(ix+q)",6,0,{221,203,256,22,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rl","(ix-q)",7,0,{221,203,260,22,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(ix+q)",6,0,{221,203,256,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"rr","(ix-q)",7,0,{221,203,260,30,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(ix+q)",6,0,{221,203,256,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sla","(ix-q)",7,0,{221,203,260,38,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(ix+q)",6,0,{221,203,256,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sra","(ix-q)",7,0,{221,203,260,46,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
