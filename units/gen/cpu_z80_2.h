/* written by lib/cpuspec.py */
#define CPUINIT initz80
#define CPUCODE 0
#define NMNEMO 67
#define NCASES 39
static const struct ccase cases[NCASES + 32] = {
{"jp","C,q",0,0,{218,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","po , q",0,0,{226,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","PO,q",0,0,{226,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","pe , q",0,0,{234,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","PE,q",0,0,{234,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","p , q",0,0,{242,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","P,q",0,0,{242,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","m , q",0,0,{250,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","M,q",0,0,{250,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","q",0,0,{195,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","(hl)",0,0,{233,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","(ix)",0,0,{221,233,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","( IY )",0,0,{253,233,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","(q)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","(bc)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","(a)",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","w,q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","nz,hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"jp","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","nz,q",0,0,{196,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","z,q",0,0,{204,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","nc,q",0,0,{212,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","c,q",0,0,{220,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","po,q",0,0,{228,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","pe,q",0,0,{236,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","p,q",0,0,{244,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","m,q",0,0,{252,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","q",0,0,{205,256,257,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","w,q",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"call","hl",0,0,{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","nz",0,0,{192,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","z",0,0,{200,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","nc",0,0,{208,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","c",0,0,{216,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","po",0,0,{224,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","pe",0,0,{232,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","p",0,0,{240,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret","m",0,0,{248,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
{"ret",0,0,0,{201,-1,-1,-1,-1},{-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1}},
};
