"""registry.py: the units and the properties they decide."""
from engine import Unit

U = {}
PROPS = {}




SPLIT = [("%s%d" % (f, n), {"FMT": v, "NRAW": n}) for n in range(16, -1, -1) for f, v in (("hex", 1), ("srec", 0))]


def unit(name, file, functions, props, **kw):
    U[name] = Unit(name, file, functions, **kw)
    for p in props.split():
        PROPS.setdefault(p, []).append(name)


# ------------------------------------------------------------ object writer
unit("scode_insert", "scode_insert.c", ["insert8"], "C01 C11 C15",
     stubs=["flushscoderaw", "outputbyte", "error", "fatal", "fopen"], rename={"fopen": "v_fopen"}, unwind=49,
     assumes=["fopen returns NULL or an open stream"])
unit("scode_setpc", "scode_insert.c", ["setpc"], "C01 C15", defines={"SETPC": None},
     stubs=["flushscoderaw", "outputbyte", "error", "fatal", "fopen"], rename={"fopen": "v_fopen"}, unwind=49)
unit("scode_multi", "scode_multi.c", ["insert16", "insert24", "insert32"], "C01 C11", stubs=["insert8"], unwind=6,
     variants=[("16", {"W16": None}), ("24", {"W24": None}), ("32", {"W32": None})])
unit("scode_flush", "scode_flush.c", ["flushscoderaw", "scodebyte"], "C01 C15", unwind=60,
     stubs=["fileerror"], variants=SPLIT, cost=2,
     assumes=["fputc and fputs append their argument to the file and do not fail"])
unit("scode_close", "scode_flush.c", ["closescodefile"], "C01 C15", unwind=60, defines={"CLOSE": None},
     stubs=["fileerror", "flushscoderaw"])


# ------------------------------------------------------------------ operators
OPF = {"ADD": "opadd", "SUB": "opsub", "OR_": "opor", "AND_": "opand", "XOR_": "opxor", "SHL": "oplsh", "SHR": "oprsh", "RLIST": "oprlist",
       "BIT": "opbit", "NEG": "opminus", "NOT_": "opnot", "LO": "oplo", "HI": "ophi", "BADDR": "opbitaddr", "BNUM": "opbitnumb", "CHECK": "checktype"}
unit("ops", "ops.c", list(OPF.values()), "C03 C15", stubs=["error"], unwind=40, variants=[(o.strip("_"), {"OP": o}) for o in OPF],
     assumes=["values of type L_RELATIVE do not occur (no statement sets F_RELATIF)", "shift counts are 0 to 63"])
unit("ops_mul", "ops.c", ["opmul"], "C03 C15", stubs=["error"], unwind=40, solver=["--z3"], defines={"OP": "MUL"})
unit("ops_div", "ops.c", ["opdiv"], "C03 C15", stubs=["error"], unwind=40, solver=["--z3"], defines={"OP": "DIV"},
     flags=["--signed-overflow-check"], ignore=[r"arithmetic overflow on signed (?!division|/)"])

# ------------------------------------------------------------------ constants
CSTF = {"DEC": "cstdecimal", "HEX": "csthexa", "OCT": "cstoctal", "BIN": "cstbinary", "ASC": "cstascii"}


def cst_loop(k):
    f, off = CSTF[k], "((unsigned long) s - (unsigned long) g_text)"
    inv = "__CPROVER_same_object(s, g_text) && %s <= g_len && val == g_val[%s] && g_st[%s] == 0" % (off, off, off)
    m = "s,{0}::s;val,{0}::1::val;r,{0}::1::r".format(f)
    if k == "ASC":
        inv = "__CPROVER_same_object(s, g_text) && %s < g_len && val == g_val[%s + 1] && g_st[%s + 1] == 0 && delimit == g_text[0]" % (off, off, off)
        m += ";delimit,%s::1::delimit" % f
    return {"sources": ["cst_ind.c"], "functions": [{f: [
        {"loop_id": "0", "assigns": "s, val, r", "invariants": inv, "decreases": "(unsigned long) g_len - " + off, "symbol_map": m}]}]}


for _k in CSTF:
    unit("cst_%s" % _k.lower(), "cst_ind.c", [CSTF[_k], "cst"], "C02 C15", stubs=["error"], unwind=252, loops=cst_loop(_k),
         defines={"KIND": "K_" + _k}, cost=3, native=False,
         tier="quick" if _k != "DEC" else "thorough", solver=None if _k != "DEC" else ["--sat-solver", "minisat2"])
unit("cst_short", "cst.c", list(CSTF.values()) + ["cst"], "C02 C15", stubs=["error"], unwind=42,
     variants=[(k, {"KIND": "K_" + k, "N": {"DEC": 14, "HEX": 14, "OCT": 16, "BIN": 38, "ASC": 16}[k]}) for k in CSTF], cost=2,
     bounded="constants of at most 14 to 38 characters, all loops unrolled (finds counterexamples; the loop invariant units prove every length)")

# ------------------------------------------------------------------ instructions
CPUP = {"6500": "C07", "6502": "C07", "65c02": "C07", "6800": "C08", "6801": "C08", "z80": "C09"}
CPUFUN = {"C07": ["cpu6502.c: branch", "single", "standard", "init6502"], "C08": ["cpu6800.c: branch", "single", "findmode", "codemode", "standard", "standard2", "standard3", "init6800"],
          "C09": ["cpuz80.c: getreg", "docode", "relbranch", "simple", "im", "rst", "searchcond", "jr", "ret", "call", "jp", "ex", "inout", "bitop", "onreg8", "logical", "stackop",
                  "arith", "incr", "ld", "initz80"]}
import cpuspec
CPUSTUBS = ["insert8", "insert16", "init_label_list", "warning", "error", "fatal", "parse", "filter", "zerobuffer"]
CPUASM = ["operand values are -32768..65535, addresses 0..65535",
          "operands are spelled with one-letter expressions and optional blanks (other spellings: filter contract, C20)"]
for _cpu, _name, _init, _code, _nm, _cases in cpuspec.shards():
    unit("cpu_" + _name, "cpu.c", CPUFUN[CPUP[_cpu]], CPUP[_cpu] + (" C10" if _name.endswith("branch") else ""),
         stubs=CPUSTUBS, defines={"CASES": '"gen/cpu_%s.h"' % _name}, unwind=400, cost=4, fs=22, objbits=16, assumes=CPUASM)
for _cpu, _name, _init, _code, _nm, _cases in cpuspec.c12_shards():
    unit("cpu_" + _name, "cpu.c", CPUFUN[CPUP[_cpu]], "C12", stubs=CPUSTUBS, defines={"CASES": '"gen/cpu_%s.h"' % _name, "C12": None},
         unwind=400, cost=4, fs=22, objbits=16, assumes=CPUASM)

# ------------------------------------------------------------ data directives
HSTUBS = ["insert8", "warning", "error", "fatal", "parse", "filter", "zerobuffer"]
unit("data", "data.c", ["Xdc", "stocke", "insert16", "insert32", "checktype"], "C11", stubs=HSTUBS, unwind=64, fs=22, objbits=16)
unit("data_list", "data_list.c", ["Xdc", "stocke"], "C11 C15", stubs=["insert8", "insert16", "insert32", "checktype", "warning", "error", "parse", "filter"], unwind=127,
     variants=[("DB", {"MOD": 1, "WIDTH": 1}), ("DDB", {"MOD": 2, "WIDTH": 2}), ("DW", {"MOD": 3, "WIDTH": 2}), ("DL", {"MOD": 4, "WIDTH": 4})])
unit("ds", "ds.c", ["Xds", "checktype"], "C11 C12", stubs=HSTUBS, unwind=64, fs=22, objbits=16)
unit("ds_loop", "ds_loop.c", ["Xds"], "C11 C12 C15", stubs=["insert8", "error", "warning", "parse", "filter", "checktype"], unwind=8,
     loops={"sources": ["ds_loop.c"], "functions": [{"Xds": [{"loop_id": "0", "assigns": "i, advance, pc, g_n",
       "invariants": "i >= 0 && i <= g_total && g_n == g_total - i && advance == g_n", "decreases": "i", "symbol_map": "i,Xds::1::i"}]}]})
unit("align", "align.c", ["Xalign"], "C11", stubs=HSTUBS, unwind=64, fs=22, objbits=16)
_off = "((unsigned long) s - (unsigned long) g_text)"
unit("asc", "asc.c", ["Xasc"], "C11 C15", stubs=["insert8", "error"], unwind=70, native=False, cost=3, defines={"N": 60}, bounded="operands of at most 60 characters, loop by invariant",
     loops={"sources": ["asc.c"], "functions": [{"Xasc": [{"loop_id": "0", "assigns": "s, r, g_out",
       "invariants": "__CPROVER_same_object(s, g_text) && %s < g_len && g_st[%s + 1] == 0 && g_out == g_nout[%s + 1] && delimiter == g_text[0]" % (_off, _off, _off),
       "decreases": "(unsigned long) g_len - " + _off, "symbol_map": "s,Xasc::1::s;r,Xasc::1::r;delimiter,Xasc::1::delimiter"}]}]})
unit("asc_short", "asc.c", ["Xasc"], "C11 C15", stubs=["insert8", "error"], unwind=14, defines={"N": 9}, bounded="strings of at most 9 characters, loops unrolled")
unit("vocab", "vocab.c", ["pseudos (table)"], "C11 C14 C17 C21", unwind=64, fs=22, objbits=16)

# ------------------------------------------------------------ CPU selection
unit("cpusel", "cpusel.c", ["Xcpu", "cpulist (table)", "init6800", "init6502", "initz80", "setflag", "clrflag"], "C22", stubs=HSTUBS + ["init_label_list"], unwind=150, fs=22, objbits=16)

# ---------------------------------------------------- conditional assembly
CSTUBS = HSTUBS + ["linegets", "asmline", "outputline", "outputEOL", "outputaddr", "position"]
unit("cond_truth", "cond.c", ["Xif", "testtrue"], "C14", stubs=CSTUBS, defines={"TRUTH": None}, unwind=64, fs=22, objbits=16, rename={"feof": "v_feof"})
unit("cond_flow", "cond.c", ["Xif"], "C14", stubs=CSTUBS, unwind=64, fs=22, objbits=16, rename={"feof": "v_feof"},
     bounded="at most 3 statements per branch (the loop carries no state but the counters)")
unit("cond_end", "cond_end.c", ["Xelse", "Xendc", "Xendm", "Xexitm"], "C14 C13", stubs=CSTUBS, unwind=64, fs=22, objbits=16)

# ------------------------------------------------------------------- symbols
unit("symstate", "symstate.c", ["deflabel", "findlabel", "cstlabel", "Xequ", "undeflabels"], "C06",
     stubs=["searchlabel", "makelabel", "parse", "outputaddr", "position", "warning", "error", "fatal"], unwind=40, fs=22, objbits=16)
unit("symops", "symops.c", ["deflabel", "findlabel", "undeflabels"], "C06 C05", stubs=["searchlabel", "makelabel", "error"], unwind=40, fs=22, objbits=16)
_walk = {"sources": ["symwalk.c"], "functions": [{"searchlabel": [{"loop_id": "2", "assigns": "q, r, addrpos, N, g_lo, g_hi, g_found, g_link",
   "invariants": "(q == 0 || q == &N) && !g_found && (q != 0 || !has0) && g_lo < g_rank && g_rank < g_hi && ((g_link == 0 && addrpos == &lroot && q == lroot) || (g_link == 1 && addrpos == &N.left && q == N.left) || (g_link == 2 && addrpos == &N.right && q == N.right))",
   "symbol_map": "q,searchlabel::1::q;r,searchlabel::1::r"}]}]}
unit("symwalk", "symwalk.c", ["searchlabel", "makelabel"], "C05", stubs=["strncmp", "fatal"], unwind=50, loops=_walk, native=False,
     fs=10, variants=[("search", {})] + [("make%d" % p, {"MAKE": None, "P": p}) for p in (-1, 99)])
unit("symwalk2", "symwalk.c", ["makelabel"], "C05", stubs=["strncmp", "fatal"], unwind=50, loops=_walk, native=False, tier="thorough",
     fs=10, variants=[("make%d" % p, {"MAKE": None, "P": p}) for p in (0, 57)])
unit("symcheck", "symname.c", ["checklabel"], "C05 C15", stubs=["fatal"], rename={"strncmp": "v_strncmp"}, unwind=64, defines={"CHECK": None})
unit("symname", "symname.c", ["searchlabel"], "C05", stubs=["fatal"], rename={"strncmp": "v_strncmp"}, unwind=64,
     bounded="names of 0, 1, 2, 17, 47, 48, 49, 52 characters; local ones of 2, 5, 46 and 48 in sections of 1 to 3 digits", variants=[("search", {})] + [("local%d_%d" % (n, d), {"LOCAL": None, "LENGTH": n, "DIGITS": d}) for n, d in ((2, 1), (5, 3), (46, 2), (48, 1))])
unit("symmake", "symmake.c", ["makelabel"], "C05 C15", stubs=["fatal"], unwind=210, cost=2, fs=10, objbits=16, tier="thorough", variants=[(str(k), {"K": k}) for k in (0, 1, 99, 100)], bounded="205 entries in a row, one tree node")
unit("syminit", "syminit.c", ["init_label_list", "undeflabels"], "C05 C22", stubs=["fatal", "error", "warning"], unwind=64, fs=64, objbits=16, exclude=["stdvocabulary"],
     variants=[("%d%s" % (n, m or ""), dict({"KWS": n}, **({"MODE": m} if m else {}))) for n in (1, 3, 6, 7) for m in (0, 1, 2) if m < 2 or n == 1], bounded="vocabularies of 1, 3, 6 and 7 keywords")
