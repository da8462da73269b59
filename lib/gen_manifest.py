"""Writes MANIFEST.json from the claims below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification of the real C code (contracts on the functions, callees by contract, "
        "loops by invariant or complete unwinding, every obligation discharged by CBMC/SAT or SMT)")
BASE = ("Assumes CBMC's reading of C on x86-64 and the C library models in lib/. Trusted callees, unchecked assumptions and "
        "bounded parts are listed per run in the evidence file. ")
CLAIM = {
    "C01": "insert8, setpc, insert16/24/32, flushscoderaw and closescodefile meet their contracts for every state, and the contracts compose to the file contents (DESIGN.md).",
    "C02": "The five evaluators meet their contracts for all texts up to the line length (loop invariants over ghost arrays); in the quick tier the decimal one is unrolled to 14 characters (bounded), its invariant proof is in the thorough tier.",
    "C03": "Every operator meets its contract for all operand values, types and flags; multiplication and division by z3.",
    "C07": "Every mnemonic, addressing mode and model of the 6502 family against an independent table from the manuals, for all operand values, types and definedness.",
    "C08": "Every mnemonic and addressing mode of the 6800 and 6801/6803 against an independent table from the manuals, for all operand values, types and definedness.",
    "C09": "Every Z80 instruction and operand combination against an independent table from the manual, for all operand values, types and definedness. Known finding: CPDR.",
    "C10": "Every branch instruction of every processor, for all instruction addresses and targets.",
    "C05": "The walk through a search tree of any shape by loop invariant (found exactly if entered, new names entered where the search ends), the accepted names for all texts, deflabel and findlabel by contract; the name compared at sampled lengths (bounded).",
    "C06": "The state of one symbol over any two-pass history of definitions and uses, by an invariant over deflabel, findlabel, cstlabel, Xequ and undeflabels.",
    "C11": "Xdc, Xds, Xalign and Xasc meet their contracts: lists of any length, all values, fill loops by invariant; strings to 60 characters (bounded: loop by invariant, text length limited).",
    "C14": "The condition for all operand values, the terminators, and the flow of statements through the branches of Xif (bounded: 3 statements per branch).",
    "C22": "Xcpu selects exactly the processor named, for every table entry and state; vocabularies become known and hidden again.",
    "C12": "Every instruction form with forward operands: the number of bytes does not depend on the value; data directives by C11 units.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -m py_compile bin/check.py bin/replay.py bin/unit.py lib/engine.py lib/registry.py lib/scenario.py && goto-cc --version && cbmc --version && gcc --version",
     "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks compile /repo/src/*.c as they are. Known and fixed defects: known-findings.txt."}
for p in props:
    i = p["id"]
    if i in CLAIM:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                            "technique": TECH, "level": "proof", "level_note": BASE + CLAIM[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not yet: the contracts for its functions are not finished")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("manifest valid,", len(m["checks"]), "checks")
except ImportError:
    pass
