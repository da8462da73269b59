/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 40
static const struct ccase cases[NCASES + 32] = {
{"srl","(ix+q)",6,0,{221,203,256,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"srl","(ix-q)",7,0,{221,203,260,62,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"add","a,(ix+q)",6,0,{221,134,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"add","a,(ix-q)",7,0,{221,134,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"add","a,q",0,0,{198,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","a,(ix+q)",6,0,{221,142,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","a,(ix-q)",7,0,{221,142,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"adc","a,q",0,0,{206,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sub","(ix+q)",6,0,{221,150,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sub","(ix-q)",7,0,{221,150,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sub","q",0,0,{214,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","a,(ix+q)",6,0,{221,158,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","a,(ix-q)",7,0,{221,158,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"sbc","a,q",0,0,{222,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","(ix+q)",6,0,{221,166,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","(ix-q)",7,0,{221,166,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"and","q",0,0,{230,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"xor","(ix+q)",6,0,{221,174,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"xor","(ix-q)",7,0,{221,174,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"xor","q",0,0,{238,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"or","(ix+q)",6,0,{221,182,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"or","(ix-q)",7,0,{221,182,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"or","q",0,0,{246,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cp","(ix+q)",6,0,{221,190,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cp","(ix-q)",7,0,{221,190,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"cp","q",0,0,{254,256,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","(ix+q)",6,0,{221,52,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"inc","(ix-q)",7,0,{221,52,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"dec","(ix+q)",6,0,{221,53,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"dec","(ix-q)",7,0,{221,53,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","b,(ix+q)",6,0,{221,70,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(ix+q),b",6,0,{221,112,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","b,(ix-q)",7,0,{221,70,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(ix-q),b",7,0,{221,112,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","a,(ix+q)",6,0,{221,126,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(ix+q),a",6,0,{221,119,256,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","a,(ix-q)",7,0,{221,126,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(ix-q),a",7,0,{221,119,260,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(ix),w",0,0,{221,54,0,258,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ld","(ix+q),w",6,0,{221,54,256,258,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
