#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays diffable)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "The object file decodes to exactly the assembled bytes at their addresses",
  "For every sequence of generated bytes and address changes, the object file consists of well formed Intel HEX records (or Motorola S-records) with correct length, address and checksum fields, at most 16 data bytes each, ended by one termination record. Decoding the records in order yields exactly the bytes generated while code generation was on, each at the address current when it was generated, in order, with none lost, repeated or added. Addresses up to 32 bits are representable in both formats.",
  ["inputs", "histories"],
  "every history of byte insertions, address changes, CODE/DUMMY switches and format choice, from every writer state reachable by such a history",
  "The tests compare eleven fixed outputs, all below 64K, in HEX only, with few address changes and no DUMMY gaps; the record writer's state (buffer start, fill level, upper address already announced) is never varied.",
  ["scode.c", "pseudos.c"],
  [("insert8/16/24/32", "scode.c"), ("setpc", "scode.c"), ("flushscoderaw", "scode.c"), ("closescodefile", "scode.c")],
  ["the object file written with -o"],
  [("raw, rawstart, rawnumber", "bytes not yet written and the address of the first", "src/scode.c"),
   ("rawextended", "address whose upper half was announced by the last type 04 record", "src/scode.c")])

p("C02", "Numeric and character constants have their documented value or are refused",
  "A constant in any supported notation (decimal; hexadecimal with $, 0x or a trailing H; binary with %, 0b or a trailing B; octal with a trailing Q; one or more quoted characters with escapes) has the value of its digits in that base, as an absolute number. A constant with a digit outside its base, an unknown escape, trailing text, or a value above 32 bits is an error and never yields a wrong value silently.",
  ["inputs"], "every spelling of a constant that fits on a source line, of every length, digit and case",
  "The tests contain a few dozen small constants; overflow limits, mixed case and bad digits are exercised by none.",
  ["operator.c", "parse.c"],
  [("cstdecimal, csthexa, cstoctal, cstbinary, cstascii", "operator.c"), ("oplist patterns", "parse.c")],
  ["values in generated code", "error messages"])

p("C03", "Operators compute their documented value, type and definedness",
  "Each unary and binary operator yields the 64 bit two's complement result of its operands for every pair of values (shift counts 0 to 63), is defined only when all its operands are, and accepts exactly the operand types it is documented for. Any other operand type is an error, and evaluation always terminates without a trap.",
  ["inputs"], "all operand values, types and definedness flags of every operator",
  "The tests use a handful of small positive operands; negative, extreme and wrongly typed operands, division by zero or by -1 and register ranges are not tested.",
  ["operator.c", "pseudos.c"],
  [("opadd, opsub, opmul, opdiv, opor, opand, opxor, oplsh, oprsh", "operator.c"), ("opminus, opnot, oplo, ophi, opbit, opbitaddr, opbitnumb, oprlist", "operator.c"), ("checktype", "pseudos.c")],
  ["values in generated code", "error messages"])

p("C04", "Expressions group by precedence, then left to right, after parentheses",
  "The value of an expression is that of its syntax tree: parentheses and quoted characters are taken first, then operators bind by the documented precedence levels, operators of one level apply from left to right, and blanks around operators do not matter. An expression that is not of this form is an error, and evaluating one leaves its text as it was.",
  ["inputs"], "all expressions over the documented operators, constants and names, by induction over their structure",
  "Precedence pairs are a product of 16 operators, nesting and spacing; the tests contain only a few expressions with more than one operator.",
  ["parse.c", "filter.c"],
  [("parse, parse2, oplist", "parse.c"), ("filter, reverse", "filter.c")],
  ["values in generated code"])

p("C05", "The symbol table is a map from names to their last definition",
  "Looking up a name finds the entry made for that name and no other, for any set of names defined in any order; names are the same exactly when they agree without regard to case in their first 48 characters. Defining or looking up one name never changes the value, type or visibility of another, and a name beginning with a dot is local to the section or macro call that uses it.",
  ["inputs", "histories"], "every sequence of definitions and lookups of arbitrary names, in any sections",
  "The tests define a few hundred names in a few fixed orders, never with names of the maximum length, equal prefixes or the same local name in many sections.",
  ["label.c", "label.h"],
  [("searchlabel", "label.c"), ("makelabel", "label.c"), ("findlabel, deflabel", "label.c"), ("init_label_list", "label.c")],
  ["values of symbols in generated code", "symbol table listing"],
  [("lroot", "binary search tree ordered by upper-cased name", "src/label.c")])

p("C06", "Undefined, forward and redefined symbols are told apart exactly",
  "In the final pass a reference to a symbol that is never defined is an error, and a reference to one defined further on yields its final value. A label defined at an address may be defined once only and a keyword never, a second definition being an error that leaves the first value; a symbol set by an assignment may be set again, unless it was used before it was first set, and has the last value assigned.",
  ["inputs", "histories"], "every history of definitions, assignments and references over two passes, for every combination of symbol states",
  "The states (defined, forward, fixed, used) of one symbol over two passes form a product that the tests sample at few points; no test expects an error.",
  ["label.c", "operator.c", "pseudos.c", "crasm.c"],
  [("deflabel, findlabel, undeflabels", "label.c"), ("cstlabel", "operator.c"), ("Xequ", "pseudos.c"), ("herelabel", "crasm.c")],
  ["error messages", "values in generated code"],
  [("UNDEF, FORWARD, NOREDEF, USED", "definedness of a symbol", "src/label.h")])

p("C07", "6502 family instructions are encoded as the processor manuals say",
  "For every instruction and addressing mode of the 6500, 6502 and 65C02, the statement generates the opcode byte the manual gives for that processor, followed by the operand in the right size and byte order; the short address form is taken only if the operand is known and fits. Every instruction and addressing mode that the selected processor does not have is an error.",
  ["inputs", "configurations"], "all mnemonics x operand forms x operand values and definedness x processor models",
  "The only 6502 tests are two programs that use a part of the opcodes with a few operand values each and no wrong combination.",
  ["cpu6502.c"], [("standard0..3, jump, bits, branch, bitbranch, cpu6502 tables", "cpu6502.c"), ("init6502", "cpu6502.c")],
  ["generated bytes", "error messages"])

p("C08", "6800 and 6801 instructions are encoded as the processor manuals say",
  "For every instruction and addressing mode of the 6800 and 6801/6803, the statement generates the opcode byte the manual gives for that processor, followed by the operand in the right size and byte order; the direct form is taken only if the operand is known and fits. Every instruction and addressing mode that the selected processor does not have is an error.",
  ["inputs", "configurations"], "all mnemonics x operand forms x operand values and definedness x processor models",
  "The tests are a few programs that use a part of the opcodes with a few operand values each and no wrong combination.",
  ["cpu6800.c"], [("standard1..5, branch, cpu6800 tables", "cpu6800.c"), ("init6800", "cpu6800.c")],
  ["generated bytes", "error messages"])

p("C09", "Z80 instructions are encoded as the processor manual says",
  "For every Z80 instruction and operand combination the statement generates the prefix and opcode bytes the manual gives, followed by displacement and operand bytes in the right order and size. Every operand combination that the processor does not have, and every bit number, restart vector or interrupt mode out of range, is an error; a displacement out of range is reported.",
  ["inputs", "configurations"], "all mnemonics x operand combinations x operand values and definedness",
  "One test program lists many opcodes with one operand value each; wrong combinations, displacement limits and forward references are not tested.",
  ["cpuz80.c"], [("handlers and tables of the Z80 vocabulary", "cpuz80.c"), ("initz80", "cpuz80.c")],
  ["generated bytes", "error messages"])

p("C10", "A relative branch reaches its target exactly or is an error",
  "For every relative branch instruction of every processor, the displacement byte is the target address minus the address of the next instruction whenever that difference is between -128 and 127. For any other target the statement is an error, for every instruction address and target.",
  ["inputs"], "all branch instructions, instruction addresses and targets",
  "The limits -128 and 127 and their neighbours at arbitrary addresses are not hit by any test.",
  ["cpu6502.c", "cpu6800.c", "cpuz80.c"], [("branch handlers", "cpu6502.c"), ("branch handler", "cpu6800.c"), ("relative jump handlers", "cpuz80.c")],
  ["generated bytes", "error messages"])

p("C11", "Data directives generate exactly the bytes their operands denote",
  "The byte, word, swapped word and long directives generate, for each item of their list in order, the low 8, 16 or 32 bits of its value in the byte order documented for the processor and directive; a string directive generates its characters with escapes replaced; a storage directive generates the requested number of fill bytes and an alignment directive at most the one needed. A malformed, wrongly typed or missing operand is an error.",
  ["inputs"], "all item lists, values, strings, sizes and start addresses",
  "The tests use short lists of small values with one byte order each and no wrong operands.",
  ["pseudos.c", "scode.c"], [("Xdc, stocke", "pseudos.c"), ("Xds", "pseudos.c"), ("Xasc", "pseudos.c"), ("Xalign", "pseudos.c"), ("insert16/24/32", "scode.c")],
  ["generated bytes", "error messages"])

p("C12", "A statement has the same size in both passes",
  "For every statement whose operand is a forward reference in the first pass and known in the second, the statement advances the address by the same number of bytes in both passes, whatever the value turns out to be, also when the statement is refused for its value in one of them. Hence every label keeps the address that the first pass gave it.",
  ["inputs", "histories"], "all instructions and data directives, operand forms and values, both passes",
  "The tests contain few forward references with few instructions; that no instruction form can change size between passes is a statement over all of them.",
  ["cpu6502.c", "cpu6800.c", "cpuz80.c", "pseudos.c", "label.c", "crasm.c"],
  [("short/long mode choice by FORWARD", "cpu6502.c"), ("direct/extended choice", "cpu6800.c"), ("operand bytes", "cpuz80.c"), ("FORWARD kept for pass 2", "label.c"), ("advance added also on error", "crasm.c")],
  ["label values in the listing", "generated bytes"])

p("C13", "A macro call assembles its body with the arguments substituted",
  "Calling a macro assembles the lines of its body in order up to its end or exit statement, each with every argument reference replaced by the text of that argument of the call, the argument count and the full argument text, and all other text unchanged; missing arguments are replaced by nothing. After the call, listing state, source position, local section and nesting are those before it, and assembly continues after the call.",
  ["inputs", "histories"], "all macro bodies, argument lists and nestings within the documented limits",
  "One small test file calls two macros; argument limits, nesting, exits and the restoration of state are not sampled.",
  ["macro.c"], [("linegets", "macro.c"), ("macrocall", "macro.c"), ("Xmacro, Xendm, Xexitm", "macro.c")],
  ["generated bytes", "listing"],
  [("source, sourcelevel", "stack of open files and macro calls", "src/macro.c")])

p("C14", "Conditional assembly takes exactly one branch, as the condition says",
  "An IF statement assembles the statements up to its ELSE or ENDC when its condition holds and those between ELSE and ENDC otherwise, never both, for every nesting of conditionals. A comparison yields the documented truth value for all operand values, and conditions on forward or incomparable operands are errors.",
  ["inputs", "programs"], "all conditions, operand values and nestings of conditionals",
  "Two small test files contain a few conditions with one nesting; truth tables of the eight comparisons and arbitrary nesting are not covered.",
  ["macro.c", "crasm.c"], [("Xif, testtrue", "macro.c"), ("Xelse, Xendc", "macro.c"), ("asmline status", "crasm.c")],
  ["generated bytes", "error messages"])

p("C15", "No source text makes the assembler access memory out of bounds",
  "For every source text, reading, splitting, evaluating and listing its lines never reads or writes outside the objects involved, never dereferences a null pointer and never divides by zero. Every text is either assembled, reported as an error or refused with a fatal message.",
  ["inputs"], "all source lines up to the line limit and all values of the settings they control",
  "The tests contain only well formed programs; buffer limits, unterminated strings, maximal names and deep nesting are reached by none.",
  ["filter.c", "parse.c", "operator.c", "label.c", "crasm.c", "pseudos.c", "macro.c", "output.c", "scode.c", "xref.c"],
  [("size checks", "filter.c"), ("LABLEN checks", "label.c"), ("line limits", "macro.c"), ("page limits", "output.c")],
  ["crashes, sanitizer reports"])

p("C16", "Every error is reported once, counted, and withholds the object file",
  "In the final pass each statement that is in error produces one message naming its line, is counted, and assembly continues with the next statement. If the count is not zero the summary says so, no success is reported and no object file is left; if it is zero the summary reports success and the object file is complete.",
  ["inputs", "histories"], "all sequences of statements with and without errors, all option combinations",
  "No test contains an error, and none looks at the summary.",
  ["crasm.c", "xref.c"], [("error, warning", "crasm.c"), ("pass", "crasm.c"), ("crasm", "crasm.c"), ("result", "xref.c")],
  ["listing", "summary", "presence of the object file"])

p("C17", "A line is taken apart into label, operation and operand as documented",
  "Comments and surrounding blanks never matter; a line assigns, defines a label, calls an operation, or does both according to its fields, the label being given the address before the operation and the address advancing by exactly what the operation generated. A label where none is allowed, a missing required label, a malformed label and an unknown operation are errors, and statements in skipped parts have no effect.",
  ["inputs"], "all source lines, all kinds of operations and all assembling states",
  "The tests contain well formed lines in a few layouts; the product of layouts, operation kinds and assembling states is not sampled, nor are the errors.",
  ["crasm.c", "filter.c"], [("asmline", "crasm.c"), ("findmnemo, herelabel", "crasm.c"), ("filter", "filter.c")],
  ["generated bytes", "label values", "error messages"])

p("C18", "The listing shows the generated bytes, their addresses and the source line",
  "For every listed statement the listing contains the source line with its line number, the address at which its code begins and the generated bytes in order, apart from the documented abbreviation of long data. Page and line limits only insert breaks: no character of the line is lost or changed.",
  ["inputs"], "all source lines, addresses, bytes and page settings",
  "The listing is not looked at by any test.",
  ["output.c"], [("outputline, outputcar, position", "output.c"), ("outputbyte, outputaddr", "output.c"), ("outputraw", "output.c")],
  ["listing"])

p("C19", "The symbol listing shows every user symbol once, with its value and state",
  "After a successful assembly the symbol listing contains every user defined symbol exactly once in alphabetical order, with its final value, its kind, and a mark if it was never used or used before its definition. Keywords, local and temporary symbols are not listed.",
  ["inputs", "histories"], "all symbol tables and all symbol states",
  "The symbol listing is not looked at by any test.",
  ["xref.c"], [("xref, xref2, printlabel", "xref.c"), ("result", "xref.c")],
  ["listing"])

p("C20", "Operand fields are split only outside quotes, escapes and parentheses",
  "Splitting a text at a separator finds the first separator that is not inside a quoted string, behind a backslash in one, or inside parentheses, without regard to letter case, and returns the exact text on either side. If there is no such place the text is reported as not matching; the text itself is never changed.",
  ["inputs"], "all texts that fit on a line and all patterns the assembler uses",
  "The tests contain few quoted separators and no unbalanced quotes or parentheses; the scanner is a state machine whose histories are not sampled.",
  ["filter.c"], [("filter", "filter.c"), ("zerobuffer", "filter.c")],
  ["all statements with operands"])

p("C21", "Source lines are read completely, in order, across included files",
  "Lines are delivered in the order of the file with their printable text unchanged, and an INCLUDE statement delivers all lines of the named file before the line that follows it. Line numbers, listing state and nesting are restored at the end of an included file, and every file comes to an end.",
  ["inputs", "histories"], "all file contents and include nestings within the documented depth",
  "One test includes one file; control characters, missing final newlines, long lines, nesting and listing switches are not sampled.",
  ["macro.c"], [("linegets", "macro.c"), ("Xinclude", "macro.c")],
  ["generated bytes", "listing"])

p("C22", "The CPU statement selects exactly the named processor once",
  "The CPU statement accepts exactly the documented processor names, sets byte order, address size and instruction set for the named model in both passes, and refuses unknown names and a second selection. No instruction is known before a processor is selected.",
  ["inputs", "configurations"], "all operand texts, both passes, all prior states",
  "Each test names one of four processors once; other models, wrong names, repetitions and the settings of byte order and address size are not compared.",
  ["pseudos.c", "cpulist.c", "cpu6502.c", "cpu6800.c", "cpuz80.c"],
  [("Xcpu", "pseudos.c"), ("cpulist", "cpulist.c"), ("init6502", "cpu6502.c"), ("init6800", "cpu6800.c"), ("initz80", "cpuz80.c")],
  ["generated bytes", "error messages", "address width in the listing"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=True) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for q in P:
        jsonschema.validate(q, s)
    print(len(P), "properties valid")
except ImportError:
    pass
