"""The instruction sets, written from the processor manuals (not from /repo):
generates units/gen/*.h, the cases of units/cpu.c.   python3 lib/cpuspec.py"""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = os.path.join(HERE, "units", "gen")
QL, QH, WL, WH, QNEG, REL = 256, 257, 258, 259, 260, 261
NORM, BRANCH, BITNO, RST, IM, IDX8, DISP, DISPN, BITDISP, KNOWN = range(10)


def op(b):
    return [b >> 8, b & 255] if b > 255 else [b]


class Set:
    def __init__(self):
        self.cases = {}            # mnemonic -> cases

    def add(self, m, text, s=(), l=(), kind=NORM, sel=0, known=()):
        self.cases.setdefault(m, []).append((m, text, kind, sel, list(s), list(l), list(known)))


# ------------------------------------------------------------------ 6500 family
def m6502(model):
    """model 0 = 6500 (no ROR), 1 = 6502, 2 = 65C02"""
    modes = {}

    def d(m, **kw):
        modes.setdefault(m, {}).update(kw)
    for m, b in (("ora", 0x00), ("and", 0x20), ("eor", 0x40), ("adc", 0x60), ("sta", 0x80), ("lda", 0xa0), ("cmp", 0xc0), ("sbc", 0xe0)):
        d(m, izx=b + 1, zp=b + 5, imm=b + 9, ab=b + 0xd, izy=b + 0x11, zpx=b + 0x15, aby=b + 0x19, abx=b + 0x1d)
        if model == 2:
            d(m, izp=b + 0x12)
    del modes["sta"]["imm"]
    for m, b in (("asl", 0x00), ("rol", 0x20), ("lsr", 0x40), ("ror", 0x60)):
        d(m, zp=b + 6, acc=b + 0xa, ab=b + 0xe, zpx=b + 0x16, abx=b + 0x1e)
    if model == 0:
        modes["ror"] = {}
    d("ldx", imm=0xa2, zp=0xa6, zpy=0xb6, ab=0xae, aby=0xbe)
    d("ldy", imm=0xa0, zp=0xa4, zpx=0xb4, ab=0xac, abx=0xbc)
    d("stx", zp=0x86, zpy=0x96, ab=0x8e)
    d("sty", zp=0x84, zpx=0x94, ab=0x8c)
    d("cpx", imm=0xe0, zp=0xe4, ab=0xec)
    d("cpy", imm=0xc0, zp=0xc4, ab=0xcc)
    d("inc", zp=0xe6, zpx=0xf6, ab=0xee, abx=0xfe)
    d("dec", zp=0xc6, zpx=0xd6, ab=0xce, abx=0xde)
    d("bit", zp=0x24, ab=0x2c)
    d("jmp", ab=0x4c, ind=0x6c)
    d("jsr", ab=0x20)
    for m, b in (("nop", 0xea), ("brk", 0), ("rti", 0x40), ("rts", 0x60), ("pha", 0x48), ("pla", 0x68), ("php", 8), ("plp", 0x28),
                 ("dex", 0xca), ("dey", 0x88), ("inx", 0xe8), ("iny", 0xc8), ("tsx", 0xba), ("txs", 0x9a), ("tax", 0xaa), ("txa", 0x8a),
                 ("tay", 0xa8), ("tya", 0x98), ("clc", 0x18), ("clv", 0xb8), ("cli", 0x58), ("cld", 0xd8), ("sec", 0x38), ("sei", 0x78), ("sed", 0xf8)):
        d(m, imp=b)
    for m, b in (("bpl", 0x10), ("bmi", 0x30), ("bvc", 0x50), ("bvs", 0x70), ("bcc", 0x90), ("bcs", 0xb0), ("bne", 0xd0), ("beq", 0xf0),
                 ("bhi", 0xb0), ("blo", 0x90), ("bgt", 0x10), ("ble", 0x30)):
        d(m, rel=b)
    if model == 2:
        d("bra", rel=0x80)
        for m, b in (("phx", 0xda), ("plx", 0xfa), ("phy", 0x5a), ("ply", 0x7a)):
            d(m, imp=b)
        d("stz", zp=0x64, zpx=0x74, ab=0x9c, abx=0x9e)
        d("tsb", zp=0x04, ab=0x0c)
        d("trb", zp=0x14, ab=0x1c)
        d("inc", acc=0x1a)
        d("dec", acc=0x3a)
        d("bit", imm=0x89, zpx=0x34, abx=0x3c)
        d("jmp", iax=0x7c)
    forms = [("", "acc", None), ("A", "acc", None), ("#q", "imm", None), ("# q", "imm", None), ("q", "zp", "ab"), ("q,x", "zpx", "abx"), ("q , X", "zpx", "abx"),
             ("q,y", "zpy", "aby"), ("(q,x)", "izx", "iax"), ("( q , X )", "izx", "iax"), ("@q,x", "izx", "iax"),
             ("(q),y", "izy", None), ("( q ) , Y", "izy", None), ("@q,y", "izy", None), ("(q)", "izp", "ind"), ("@q", "izp", "ind"),
             ("x", None, None), ("q,a", None, None)]
    if model != 2:                 # the spellings with blanks are checked with the 65C02
        forms = [f for f in forms if " " not in f[0] and f[0][:1] != "@"]
    s = Set()
    for m, md in modes.items():
        if "rel" in md:
            s.add(m, "q", [md["rel"], REL], kind=BRANCH)
            s.add(m, "a")
            s.add(m, "")
            continue
        if "imp" in md:
            s.add(m, "", [md["imp"]])
            s.add(m, "q")
            s.add(m, "a")
            continue
        for text, a, b in forms:
            if a in ("acc", "imm"):
                o = md.get(a)
                s.add(m, text, [] if o is None else [o] if a == "acc" else [o, QL])
            elif a is None:
                s.add(m, text)
            else:
                sh, lo = md.get(a), md.get(b)
                s.add(m, text, [sh, QL] if sh is not None else [], [lo, QL, QH] if lo is not None else [], sel=1)
    return s


# ------------------------------------------------------------------ 6800 family
def m6800(model):
    s = Set()
    imp = dict(nop=1, rti=0x3b, rts=0x39, swi=0x3f, wai=0x3e, aba=0x1b, clra=0x4f, clrb=0x5f, cba=0x11, coma=0x43, comb=0x53, nega=0x40, negb=0x50,
               daa=0x19, deca=0x4a, decb=0x5a, inca=0x4c, incb=0x5c, psha=0x36, pshb=0x37, pula=0x32, pulb=0x33, rola=0x49, rolb=0x59, rora=0x46, rorb=0x56,
               asla=0x48, aslb=0x58, asra=0x47, asrb=0x57, lsra=0x44, lsrb=0x54, sba=0x10, tab=0x16, tba=0x17, tsta=0x4d, tstb=0x5d, dex=9, des=0x34,
               inx=8, ins=0x31, tsx=0x30, txs=0x35, clc=0xc, clv=0xa, cli=0xe, sec=0xd, sev=0xb, sei=0xf, tap=6, tpa=7)
    rel = dict(bra=0x20, bsr=0x8d, bhi=0x22, bls=0x23, bcc=0x24, bcs=0x25, bne=0x26, beq=0x27, bvc=0x28, bvs=0x29, bpl=0x2a, bmi=0x2b, bge=0x2c, blt=0x2d,
               bgt=0x2e, ble=0x2f)
    rmw = dict(neg=0, com=3, lsr=4, ror=6, asr=7, asl=8, rol=9, dec=0xa, inc=0xc, tst=0xd, jmp=0xe, clr=0xf)
    acc = dict(sub=0, cmp=1, sbc=2, eor=8, adc=9, add=0xb)
    acc2 = {"and": 4, "bit": 5, "lda": 6, "ora": 0xa}
    mem = {}                       # mnemonic -> (immediate opcode, immediate size, direct, indexed, extended)
    for m, o in list(acc.items()) + list(acc2.items()):
        mem[m + "a"] = (0x80 + o, 1, 0x90 + o, 0xa0 + o, 0xb0 + o)
        mem[m + "b"] = (0xc0 + o, 1, 0xd0 + o, 0xe0 + o, 0xf0 + o)
    mem["staa"] = (None, 0, 0x97, 0xa7, 0xb7)
    mem["stab"] = (None, 0, 0xd7, 0xe7, 0xf7)
    mem["cpx"] = (0x8c, 2, 0x9c, 0xac, 0xbc)
    mem["lds"] = (0x8e, 2, 0x9e, 0xae, 0xbe)
    mem["sts"] = (None, 0, 0x9f, 0xaf, 0xbf)
    mem["ldx"] = (0xce, 2, 0xde, 0xee, 0xfe)
    mem["stx"] = (None, 0, 0xdf, 0xef, 0xff)
    mem["jsr"] = (None, 0, None, 0xad, 0xbd)
    for m, o in rmw.items():
        mem[m] = (None, 0, None, 0x60 + o, 0x70 + o)
    if model == 1:
        imp.update(lsrd=4, asld=5, pulx=0x38, abx=0x3a, pshx=0x3c, mul=0x3d)
        rel.update(brn=0x21)
        mem["subd"] = (0x83, 2, 0x93, 0xa3, 0xb3)
        mem["addd"] = (0xc3, 2, 0xd3, 0xe3, 0xf3)
        mem["ldd"] = (0xcc, 2, 0xdc, 0xec, 0xfc)
        mem["std"] = (None, 0, 0xdd, 0xed, 0xfd)
    for m, o in imp.items():
        s.add(m, "", [o])
        s.add(m, "q")
    for m, o in rel.items():
        s.add(m, "q", [o, REL], kind=BRANCH)
        s.add(m, "")
    for m, (i, n, d, x, e) in mem.items():
        s.add(m, "")
        for t in ("#q", "# q"):
            s.add(m, t, [] if i is None else [i, QL] if n == 1 else [i, QH, QL])
        for t in ("q,x", "q , X"):
            s.add(m, t, [x, QL], kind=IDX8)
        for t in (",x", ", X"):
            s.add(m, t, [x, 0])
        s.add(m, "q", [] if d is None else [d, QL], [e, QH, QL], sel=1)
        s.add(m, "q,y")
    return s


# ------------------------------------------------------------------ Z80
R8 = {"b": 0, "c": 1, "d": 2, "e": 3, "h": 4, "l": 5, "a": 7}
CC = {"nz": 0, "z": 1, "nc": 2, "c": 3, "po": 4, "pe": 5, "p": 6, "m": 7}
XY = {"ix": 0xdd, "iy": 0xfd}


def z80():
    s = Set()
    I, IL = "q", "w"

    def idx(v):
        """indexed operands: text, prefix, displacement byte, kind"""
        lo, neg = (QL, QNEG) if v == "q" else (WL, None)
        out = []
        for r, p in XY.items():
            out.append(("(%s)" % r, p, 0, NORM))
            out.append(("(%s+%s)" % (r, v), p, lo, DISP))
            if neg:
                out.append(("(%s-%s)" % (r, v), p, neg, DISPN))
        out.append(("( IX + %s )" % v, 0xdd, lo, DISP))
        return out
    for m, o in dict(ccf=0x3f, cpd=0xeda9, cpi=0xeda1, cpir=0xedb1, cpl=0x2f, daa=0x27, exx=0xd9, halt=0x76, ind=0xedaa, indr=0xedba,
                     ini=0xeda2, inir=0xedb2, di=0xf3, ei=0xfb, ldd=0xeda8, lddr=0xedb8, ldi=0xeda0, ldir=0xedb0, neg=0xed44, nop=0, otdr=0xedbb, otir=0xedb3,
                     outd=0xedab, outi=0xeda3, reti=0xed4d, retn=0xed45, rla=0x17, rlca=0x07, rld=0xed6f, rra=0x1f, rrca=0x0f, rrd=0xed67, scf=0x37).items():
        s.add(m, "", op(o))
        s.add(m, "q")
    s.add("cpdr", "", op(0xedb9), kind=KNOWN, known=op(0xed89))
    s.add("cpdr", "q")
    s.add("im", "q", [0xed, 0x46], kind=IM)
    s.add("im", "a")
    s.add("rst", "q", [0xc7], kind=RST)
    s.add("rst", "a")
    s.add("djnz", "q", [0x10, REL], kind=BRANCH)
    s.add("jr", "q", [0x18, REL], kind=BRANCH)
    for c, n in CC.items():
        s.add("jr", c + ",q", *([[0x20 + 8 * n, REL]] if n < 4 else []), kind=BRANCH)
        s.add("jp", c + " , q", [0xc2 + 8 * n, QL, QH])
        s.add("jp", c.upper() + ",q", [0xc2 + 8 * n, QL, QH])
        s.add("call", c + ",q", [0xc4 + 8 * n, QL, QH])
        s.add("ret", c, [0xc0 + 8 * n])
    s.add("jp", "q", [0xc3, QL, QH])
    s.add("jp", "(hl)", [0xe9])
    s.add("jp", "(ix)", [0xdd, 0xe9])
    s.add("jp", "( IY )", [0xfd, 0xe9])
    for t in ("(q)", "(bc)", "(a)", "w,q", "nz,hl", "hl"):
        s.add("jp", t)
    s.add("call", "q", [0xcd, QL, QH])
    s.add("call", "w,q")
    s.add("call", "hl")
    s.add("ret", "", [0xc9])
    s.add("ret", "q")
    s.add("jr", "a")
    s.add("djnz", "nz,q")
    s.add("ex", "de,hl", [0xeb])
    s.add("ex", "HL , DE", [0xeb])
    s.add("ex", "af,af'", [0x08])
    s.add("ex", "AF , AF'", [0x08])
    s.add("ex", "(sp),hl", [0xe3])
    s.add("ex", "( SP ) , IX", [0xdd, 0xe3])
    s.add("ex", "(sp),iy", [0xfd, 0xe3])
    for t in ("de,bc", "(sp),bc", "af,bc", "hl,q", "a,b", "q"):
        s.add("ex", t)
    s.add("in", "a,(q)", [0xdb, QL])
    s.add("out", "(q),a", [0xd3, QL])
    s.add("in", "A , (q)", [0xdb, QL])
    for r, n in R8.items():
        s.add("in", "%s,(c)" % r, [0xed, 0x40 + 8 * n])
        s.add("out", "(c),%s" % r, [0xed, 0x41 + 8 * n])
        if r != "a":
            s.add("in", "%s,(q)" % r)
            s.add("out", "(q),%s" % r)
    for t in ("(hl),(c)", "hl,(c)", "a,(b)", "a,(hl)", "a,q", "a", "q"):
        s.add("in", t)
    for t in ("(c),(hl)", "(c),hl", "(b),a", "q,a", "a", "q"):
        s.add("out", t)
    # bit, set, res
    for m, b in (("bit", 0x40), ("res", 0x80), ("set", 0xc0)):
        for r, n in list(R8.items()) + [("(hl)", 6)]:
            s.add(m, "q,%s" % r, [0xcb, b + n], kind=BITNO)
        for t, p, dd, k in idx("w"):
            s.add(m, "q , " + t, [p, 0xcb, dd, b + 6], kind=BITNO if dd == 0 else BITDISP)
        for t in ("q,hl", "q,(bc)", "q,w", "q,(w)", "a,b", "q", "b"):
            s.add(m, t)
    # shifts
    for m, b in (("rlc", 0), ("rrc", 8), ("rl", 0x10), ("rr", 0x18), ("sla", 0x20), ("sra", 0x28), ("srl", 0x38)):
        for r, n in list(R8.items()) + [("(hl)", 6), ("( HL )", 6)]:
            s.add(m, r, [0xcb, b + n])
        for t, p, dd, k in idx("q"):
            s.add(m, t, [p, 0xcb, dd, b + 6], kind=k)
        for t in ("hl", "ix", "(bc)", "q", "(q)", "af", "i"):
            s.add(m, t)
    # 8 bit arithmetic
    for m, b in (("add", 0x80), ("adc", 0x88), ("sub", 0x90), ("sbc", 0x98), ("and", 0xa0), ("xor", 0xa8), ("or", 0xb0), ("cp", 0xb8)):
        pre = ["a,"] if m in ("add", "adc", "sbc") else ["", "A , "]
        for a in pre:
            for r, n in list(R8.items()) + [("(hl)", 6)]:
                s.add(m, a + r, [b + n])
            for t, p, dd, k in idx("q"):
                s.add(m, a + t, [p, b + 6, dd], kind=k)
            s.add(m, a + "q", [b + 0x46, QL])
            for t in ("hl", "(bc)", "(q)", "ix", "sp", "i", "af"):
                s.add(m, a + t)
        for t in ("b,c", "q,a", "(hl),a"):
            s.add(m, t)
    for n, r in enumerate(("bc", "de", "hl", "sp")):
        s.add("add", "hl,%s" % r, [0x09 + 16 * n])
        s.add("adc", "hl,%s" % r, [0xed, 0x4a + 16 * n])
        s.add("sbc", "hl,%s" % r, [0xed, 0x42 + 16 * n])
        for x, p in XY.items():
            s.add("add", "%s,%s" % (x, r), *([[p, 0x09 + 16 * n]] if r != "hl" else []))
            s.add("adc", "%s,%s" % (x, r))
            s.add("sbc", "%s,%s" % (x, r))
    s.add("add", "ix,ix", [0xdd, 0x29])
    s.add("add", "iy,iy", [0xfd, 0x29])
    for t in ("hl,ix", "ix,iy", "bc,hl", "hl,q", "hl,a", "hl,af", "sp,hl", "a", "q", "hl", "hl,(hl)"):
        s.add("add", t)
        s.add("adc", t)
        s.add("sbc", t)
    # inc, dec
    for m, b8, b16 in (("inc", 4, 3), ("dec", 5, 0xb)):
        for r, n in list(R8.items()) + [("(hl)", 6)]:
            s.add(m, r, [b8 + 8 * n])
        for n, r in enumerate(("bc", "de", "hl", "sp")):
            s.add(m, r, [b16 + 16 * n])
        for x, p in XY.items():
            s.add(m, x, [p, b16 + 0x20])
        for t, p, dd, k in idx("q"):
            s.add(m, t, [p, b8 + 0x30, dd], kind=k)
        for t in ("(bc)", "q", "(q)", "af", "i", "r", "f"):
            s.add(m, t)
    for m, b in (("push", 0xc5), ("pop", 0xc1)):
        for n, r in enumerate(("bc", "de", "hl", "af")):
            s.add(m, r, [b + 16 * n])
        for x, p in XY.items():
            s.add(m, x, [p, b + 0x20])
        for t in ("sp", "a", "(hl)", "q", "(q)", "i"):
            s.add(m, t)
    # ld
    r8m = list(R8.items()) + [("(hl)", 6)]
    for r, n in r8m:
        for r2, n2 in r8m:
            s.add("ld", "%s,%s" % (r, r2), *([[0x40 + 8 * n + n2]] if not (n == 6 and n2 == 6) else []))
        s.add("ld", "%s , q" % r, [0x06 + 8 * n, QL])
        for t, p, dd, k in idx("q"):
            if n == 6:
                s.add("ld", "%s,%s" % (r, t))
                s.add("ld", "%s,%s" % (t, r))
            else:
                s.add("ld", "%s,%s" % (r, t), [p, 0x46 + 8 * n, dd], kind=k)
                s.add("ld", "%s,%s" % (t, r), [p, 0x70 + n, dd], kind=k)
        for t in ("(q)", "(bc)", "(de)", "i", "r"):
            if r != "a":
                s.add("ld", "%s,%s" % (r, t))
                s.add("ld", "%s,%s" % (t, r))
        for t in ("bc", "hl", "sp", "ix", "af"):
            s.add("ld", "%s,%s" % (r, t))
            s.add("ld", "%s,%s" % (t, r))
    for t, p, dd, k in idx("q"):
        s.add("ld", "%s,w" % t, [p, 0x36, dd, WL], kind=k)
        for u in ("(ix)", "(iy+w)", "(hl)", "hl", "ix", "(w)", "bc"):
            s.add("ld", "%s,%s" % (t, u))
            s.add("ld", "%s,%s" % (u, t))
    s.add("ld", "a,(q)", [0x3a, QL, QH])
    s.add("ld", "( q ) , A", [0x32, QL, QH])
    s.add("ld", "a,(bc)", [0x0a])
    s.add("ld", "A,( DE )", [0x1a])
    s.add("ld", "(bc),a", [0x02])
    s.add("ld", "(de),a", [0x12])
    s.add("ld", "a,i", [0xed, 0x57])
    s.add("ld", "a,r", [0xed, 0x5f])
    s.add("ld", "i,a", [0xed, 0x47])
    s.add("ld", "r,a", [0xed, 0x4f])
    for n, r in enumerate(("bc", "de", "hl", "sp")):
        s.add("ld", "%s,q" % r, [0x01 + 16 * n, QL, QH])
        s.add("ld", "%s,(q)" % r, [0x2a, QL, QH] if r == "hl" else [0xed, 0x4b + 16 * n, QL, QH])
        s.add("ld", "(q),%s" % r, [0x22, QL, QH] if r == "hl" else [0xed, 0x43 + 16 * n, QL, QH])
        for r2 in ("bc", "de", "hl", "sp", "ix", "af"):
            if r == "sp" and r2 == "hl":
                s.add("ld", "sp,hl", [0xf9])
            elif r == "sp" and r2 == "ix":
                s.add("ld", "sp,ix", [0xdd, 0xf9])
                s.add("ld", "SP , IY", [0xfd, 0xf9])
            else:
                s.add("ld", "%s,%s" % (r, r2))
    for x, p in XY.items():
        s.add("ld", "%s,q" % x, [p, 0x21, QL, QH])
        s.add("ld", "%s,(q)" % x, [p, 0x2a, QL, QH])
        s.add("ld", "(q),%s" % x, [p, 0x22, QL, QH])
        for t in ("hl", "bc", "sp", "(hl)", "af", "iy" if x == "ix" else "ix", "(%s)" % x):
            s.add("ld", "%s,%s" % (x, t))
    for t in ("q,a", "(q),(w)", "(q),w", "q,w", "af,q", "(bc),b", "(bc),q", "(sp),a", "a", "i,b", "r,q", "f,a", "a,f", "(de),hl"):
        s.add("ld", t)
    return s


def arr(v, n=5):
    v = list(v) + [-1] * (n - len(v))
    return "{" + ",".join(map(str, v)) + "}"


CPUS = [("6500", "init6502", 0, m6502(0), 8), ("6502", "init6502", 1, m6502(1), 8), ("65c02", "init6502", 2, m6502(2), 12),
        ("6800", "init6800", 0, m6800(0), 12), ("6801", "init6800", 1, m6800(1), 12), ("z80", "initz80", 0, z80(), 36)]


def c12_shards():
    """legal instructions with a symbolic operand, by processor"""
    for cpu, init, code, st, n in CPUS:
        if cpu not in ("65c02", "6801", "z80"):
            continue
        cs = [c for m, l in st.cases.items() for c in l if (c[4] or c[5]) and c[1] and any(x in c[1] for x in "qw") and c[1] == c[1].lower() and " " not in c[1]
              and (cpu == "65c02" or True)]
        if cpu == "z80":           # one operand register stands for its class
            cs = [c for c in cs if not any(r in c[1] for r in ("iy", "c,", "d,", "e,", "h,", "l,", ",c", ",d", ",e", ",h", ",l")) or c[0] in ("in", "out", "jp", "call", "jr") and not c[1].startswith("p")]
        k = 40
        for i in range((len(cs) + k - 1) // k):
            yield cpu, "c12_%s_%d" % (cpu, i), init, code, len(st.cases), cs[i * k:(i + 1) * k]


def shards():
    """-> (cpu, shard name, init, code, number of mnemonics, cases)"""
    for cpu, init, code, st, n in CPUS:
        rel = [c for m, cs in st.cases.items() for c in cs if any(x[2] == BRANCH for x in cs)]
        yield cpu, cpu + "_branch", init, code, len(st.cases), rel
        rest = [c for m, cs in st.cases.items() for c in cs if not any(x[2] == BRANCH for x in cs) and c[2] != KNOWN]
        k = (len(rest) + n - 1) // n
        for i in range(n):
            if rest[i * k:(i + 1) * k]:
                yield cpu, "%s_%d" % (cpu, i), init, code, len(st.cases), rest[i * k:(i + 1) * k]
        kn = [c for m, cs in st.cases.items() for c in cs if c[2] == KNOWN]
        if kn:
            yield cpu, cpu + "_cpdr", init, code, len(st.cases), kn


if __name__ == "__main__":
    os.makedirs(GEN, exist_ok=True)
    for cpu, name, init, code, nm, cases in list(shards()) + list(c12_shards()):
        with open(os.path.join(GEN, "cpu_%s.h" % name), "w") as f:
            f.write("/* written by lib/cpuspec.py */\n#define CPUINIT %s\n#define CPUCODE %d\n#define NMNEMO %d\n#define NCASES %d\n" % (init, code, nm, len(cases)))
            if any(c[2] == KNOWN for c in cases):
                f.write("#define KNOWN\n")
            f.write("static const struct ccase cases[NCASES + 32] = {\n")
            for m, t, k, sel, s, l, kn in cases:
                f.write('{"%s",%s,%d,%d,%s,%s,%s},\n' % (m, '"%s"' % t if t else "0", k, sel, arr(s), arr(l), arr(kn)))
            f.write("};\n")
        print(name, len(cases))
