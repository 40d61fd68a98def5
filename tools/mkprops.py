#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": obs or ["bytes of the -bin output file"], "hook_needed": None}})


p("C01", "General-purpose, x87 and system instructions encode what was written",
  "Every integer, x87, string, control or system instruction that is assembled without an error yields bytes that an x86 processor in the segment's mode (16, 32 or 64 bit) decodes as exactly that instruction with exactly the written registers, operand size, immediate, and memory operand (base, index, scale, displacement, address size, segment override). Operand forms that are valid for the selected CPU are accepted.",
  ["inputs"], "all mnemonics of the non-SIMD instruction set x operand forms x register choices x addressing modes x immediates and displacements x 16/32/64-bit mode",
  "The regression sources hold a few thousand fixed lines; register numbers, displacement sizes, REX/SIB corner cases and immediates combine to far more, and expected files only freeze what the tool produced once.",
  ["codegen.c", "codegenv2.c", "parser.c", "H/instruct.h", "H/InstrTableV2.h", "H/opndcls.h", "reswords.c", "branch.c"],
  [("instruction table lookup and operand matching", "codegen.c, codegenv2.c"), ("memory operand parsing, ModRM/SIB/REX", "parser.c"), ("generated instruction tables", "H/InstrTableV2.h, H/instruct.h")])
p("C02", "SIMD instructions encode what was written",
  "Every MMX, SSE, AVX, AVX2, FMA, BMI or AVX-512 instruction that is assembled without an error yields bytes that a processor in the segment's mode decodes as exactly that instruction with the written vector, mask and general registers, memory operand (with compressed displacement), immediate, and EVEX decorations (opmask, zeroing, broadcast, rounding, sae). Operand forms that are valid are accepted.",
  ["inputs"], "all SIMD mnemonics x operand forms x registers 0-31 x addressing modes x displacements x decorations, in 32- and 64-bit mode",
  "Frozen expected bytes cover one register choice per form and no check ties them to what the instruction set defines.",
  ["codegen.c", "codegenv2.c", "parser.c", "H/instravx.h", "H/instruct.h", "H/InstrTableV2.h", "reswords.c"],
  [("VEX/EVEX prefix emission", "codegen.c, codegenv2.c"), ("VEX flag tables", "reswords.c, H/instravx.h"), ("decorator parsing", "parser.c, tokenize.c")])
p("C03", "Impossible operands are rejected, not encoded as something else",
  "A statement whose operands do not fit together (wrong register class or size, unencodable register such as a high byte register with REX, immediate or displacement out of range, invalid scale, index or base, two memory operands, 64-bit registers outside 64-bit code) is reported as an error; it is never silently assembled to an instruction other than the one written.",
  ["inputs"], "all instruction statements formed from known mnemonics and arbitrary operand lists, in 16-, 32- and 64-bit mode",
  "There are a few dozen negative examples; the space of wrong combinations is unbounded and a missing check shows only as wrong bytes.",
  ["parser.c", "codegen.c", "codegenv2.c", "H/opndcls.h"],
  [("check_size and operand class matching", "parser.c"), ("range checks on immediates", "parser.c, codegen.c")])
p("C04", "Branches reach their target with a valid displacement",
  "After assembly every JMP, Jcc, CALL, LOOP and JCXZ to a label transfers control to exactly that label's final address, whatever the distance, direction, alignment padding or other branches between, including automatically lengthened or negated conditional jumps; a branch is short whenever UASM reports no size override and the target of a backward branch is in short range. Where no encoding can reach the target an error is given.",
  ["programs"], "all layouts of labels, branches, filler data and alignments in 16-, 32- and 64-bit segments, with and without SHORT/NEAR overrides and OPTION LJMP/NOLJMP",
  "Displacement optimisation is a fixed point over the whole program; tests hold a few layouts near the +-128 boundary.",
  ["branch.c", "backptch.c", "fixup.c", "label.c", "assemble.c", "posndir.c"],
  [("forward reference backpatching", "backptch.c"), ("jump sizing", "branch.c"), ("passes until sizes are stable", "assemble.c")])
p("C05", "Constant expressions evaluate to their mathematical value",
  "A constant expression (arithmetic, shift, bitwise, relational, MOD, LOW/HIGH/LOWWORD/HIGHWORD/LOW32/HIGH32, unary sign, parentheses, numbers in any radix, character constants, named equates) has the value that the MASM operator precedence and two's complement integer arithmetic define, wherever it is used: in data, as an immediate, in a displacement, in an equate, in IF or as a repeat count.",
  ["inputs"], "all expression trees over the operators and operands above, with values up to 64 bits",
  "Tests fix a few hundred expressions; precedence, sign extension and width interactions are a product space.",
  ["expreval.c", "tokenize.c", "equate.c", "expans.c"],
  [("operator precedence and evaluation", "expreval.c"), ("number and radix scanning", "tokenize.c")])
p("C06", "Data directives emit exactly the values written",
  "DB/DW/DD/DF/DQ/DT/BYTE/SBYTE/.../OWORD lists, strings, nested DUPs, ? and offsets of labels emit, in order, the little-endian two's complement bytes of the written values at the expected place, with SIZEOF/LENGTHOF/TYPE of the variable equal to what was emitted; values that do not fit the item are reported as errors.",
  ["inputs"], "all initialiser lists over types, literals, strings, nested DUP, label offsets and item widths",
  "Only hand-picked initialisers are tested.",
  ["data.c", "expreval.c", "tbyte.c", "tokenize.c", "segment.c"],
  [("data_item, OutputBytes", "data.c"), ("size/length bookkeeping", "data.c")])
p("C07", "Floating-point constants are correctly rounded",
  "A real constant in decimal or hex-real notation initialising a REAL4, REAL8 or REAL10 item is stored as the IEEE/x87 value nearest to the written number (ties to even), with sign, zero, denormals and overflow handled or reported; the same value is used where the constant appears as an immediate operand.",
  ["inputs"], "all decimal mantissas and exponents and hex-real literals, for the three formats",
  "A handful of constants are compared; rounding errors show only for particular digit patterns.",
  ["atofloat.c", "tbyte.c", "data.c", "parser.c"],
  [("decimal to 80-bit conversion", "tbyte.c"), ("format conversion", "atofloat.c, data.c")])
p("C08", "Structures, unions and records have the documented layout",
  "For every STRUCT/UNION/RECORD definition (nested, anonymous, with alignment argument or -Zp) the field offsets, SIZEOF, TYPE, LENGTHOF, WIDTH, MASK and shift counts follow the alignment and bit-packing rules, and an initialised instance emits the given or default field values at these offsets with padding between; field access through an instance or a register with type override addresses the same offset.",
  ["programs"], "all nestings of field types, alignments, default values and initialiser lists",
  "Tests hold about 40 fixed structures.",
  ["types.c", "data.c", "expreval.c"],
  [("field offset and alignment computation", "types.c"), ("instance initialisation", "data.c"), ("record mask and width", "types.c, expreval.c")])
p("C09", "A macro call assembles to what its hand expansion assembles to",
  "Invoking a macro (with positional, named-default, required and VARARG parameters, LOCAL symbols, nested and recursive calls, EXITM results, &-substitution, %-expansion, <>-quoted and !-escaped arguments) produces exactly the same output as the source in which every call is replaced by the body with the arguments substituted.",
  ["programs"], "all macro definitions and call sites of that language",
  "Tests use fixed macros; substitution interacts with quoting, nesting and operators in unboundedly many ways.",
  ["macro.c", "expans.c", "preproc.c", "input.c", "tokenize.c"],
  [("parameter placeholders in stored macro lines", "macro.c"), ("argument parsing and expansion", "expans.c")])
p("C10", "Conditional and repeat blocks select and repeat exactly the right lines",
  "IF/IFE/IFDEF/IFNDEF/IFB/IFNB/IFIDN(I)/IFDIF(I) with ELSEIF*/ELSE, arbitrarily nested, assemble exactly the lines of the branch whose condition is the first true one, and REPEAT/WHILE/FOR/FORC (REPT/IRP/IRPC), with EXITM and GOTO, assemble their body exactly once per iteration with the loop variable set to that iteration's value.",
  ["programs"], "all nestings of conditional and repeat blocks with arbitrary conditions, assembly-time variables and lists",
  "Tests hold a few nestings.",
  ["condasm.c", "loop.c", "macro.c", "preproc.c", "equate.c"],
  [("IF nesting state", "condasm.c"), ("loop directives", "loop.c")])
p("C11", "Text macros and string functions compute the right text",
  "TEXTEQU/EQU text, CATSTR, SUBSTR, SIZESTR, INSTR and the functions @CatStr, @SubStr, @SizeStr, @InStr, with literal, text-macro and %expression arguments, compute the concatenation, substring, length and position of their texts, and redefinition takes effect from that line on.",
  ["programs"], "all sequences of text definitions and string operations",
  "Few examples are tested, none of the index boundaries systematically.",
  ["string.c", "equate.c", "expans.c"],
  [("string directives and functions", "string.c"), ("text macro expansion", "expans.c")])
p("C12", "HLL blocks execute with the meaning of their conditions",
  "Code generated for .IF/.ELSEIF/.ELSE, .WHILE, .REPEAT/.UNTIL/.UNTILCXZ, .FOR, .SWITCH/.CASE/.DEFAULT with .BREAK/.CONTINUE (also conditional), when executed, takes exactly the path that evaluating the conditions (comparisons signed or unsigned by type, &&, ||, !, &, flag tests, byte to 64-bit operands) prescribes, whatever the nesting.",
  ["programs"], "all nestings of HLL blocks and conditions over registers, memory and constants, in 32- and 64-bit code",
  "Tests compare frozen bytes of fixed blocks and never execute the generated code.",
  ["hll.c", "invoke.c", "condasm.c"],
  [("condition code generation", "hll.c"), ("jump label management", "hll.c")], ["result of executing the generated code"])
p("C13", "INVOKE passes every argument where the callee expects it",
  "A call made with INVOKE (or as a function call in an expression) under the C, STDCALL, PASCAL, SYSCALL, FASTCALL, Win64, SystemV or VECTORCALL convention delivers to a callee compiled to that convention exactly the written argument values (constants, registers, memory of any size with sign/zero extension, ADDR, floats, VARARG), keeps the stack balanced and the ABI alignment; an argument that would be read after it was overwritten is reported.",
  ["programs"], "all prototypes and argument lists x conventions",
  "Tests compare frozen bytes; nothing runs the call against an independent callee.",
  ["invoke.c", "proc.c", "types.c"],
  [("per-convention parameter passing", "invoke.c"), ("register-overwrite check", "invoke.c")], ["argument values observed by a C callee"])
p("C14", "PROC frames give access to parameters and locals and preserve registers",
  "A PROC (any of the conventions, with USES, LOCALs of any type, parameters, FRAME, OPTION STACKBASE/WIN64/FRAME settings) called from independent code reads every parameter at its passed value, has locals that do not overlap each other, the saved registers or the caller's frame and are suitably addressable, returns with the stack pointer and all USES and callee-saved registers restored, and pops what the convention requires.",
  ["programs"], "all procedure signatures, USES lists, local variable sets and prologue options",
  "Tests compare frozen prologues; nothing runs them.",
  ["proc.c", "invoke.c", "types.c"],
  [("prologue/epilogue generation", "proc.c"), ("parameter and local offsets", "proc.c")], ["values returned and machine state seen by a C caller"])
p("C15", "ELF objects link to an image with the right contents and addresses",
  "An ELF32 or ELF64 object, when linked by a standard linker, gives an image in which every section has the assembled bytes, every reference (absolute, PC-relative, section-relative, with addend, to local, public, external or common symbols) resolves to the address of the named symbol plus addend, and the symbol table lists exactly the public and external symbols with right binding, value and section.",
  ["programs"], "all multi-section programs with cross-references between sections and modules",
  "Tests compare two frozen objects; nothing links them.",
  ["elf.c", "fixup.c", "segment.c", "extern.c", "assemble.c"],
  [("relocation and symbol table output", "elf.c"), ("fixup creation", "fixup.c")], ["image produced by GNU ld"])
p("C16", "COFF and Win64 objects link to an image with the right contents and addresses",
  "A COFF (32-bit) or Win64 object is well formed and, when linked, every reference (VA, RVA/IMAGEREL, SECTIONREL, REL32 with trailing immediate bytes, ADDR64) resolves to the named symbol plus addend, section contents, names, flags and alignment are as written, and the symbol table lists the public, external, communal and static symbols.",
  ["programs"], "all multi-section programs with cross-references",
  "COFF output has no byte check in the test suite at all (expected objects are missing).",
  ["coff.c", "fixup.c", "segment.c", "assemble.c"],
  [("COFF relocation, section and symbol output", "coff.c")], ["object read by an independent reader and image linked by GNU ld"])
p("C17", "OMF objects describe the assembled module faithfully",
  "An OMF object (16- and 32-bit) is a sequence of valid records (lengths, checksums, index references in range), and loading it by the OMF rules reproduces every segment's bytes, length, alignment, combine and class, the groups, publics, externals, communals and the start address, with every fixup resolving to the target the source names.",
  ["programs"], "all segment, group, symbol and fixup combinations in OMF, including data larger than a record",
  "OMF output has no byte check in the test suite.",
  ["omf.c", "omffixup.c", "omfint.c", "segment.c"],
  [("record writer and LEDATA splitting", "omf.c, omfint.c"), ("fixup subrecords", "omffixup.c")], ["object loaded by an independent OMF reader"])
p("C18", "Mach-O objects describe the assembled module faithfully",
  "A Mach-O 64 object is well formed, and its sections, symbols and relocations, applied by the Mach-O x86-64 rules, reproduce the assembled bytes with every reference resolving to the symbol the source names.",
  ["programs"], "all multi-section 64-bit programs with cross-references",
  "Two frozen objects are compared.",
  ["macho64.c", "fixup.c"],
  [("Mach-O writer", "macho64.c")], ["object read by llvm-readobj and an independent reader"])
p("C19", "Flat, MZ and PE images are laid out and relocated as declared",
  "The BIN, MZ and PE outputs contain every segment's bytes at the file offset and address that segment order, alignment, ORG, grouping and class imply; references hold final addresses; the MZ header's sizes, relocation entries, SS:SP and CS:IP and the PE header's section table, entry point and directories describe that image.",
  ["programs"], "all segment, group and reference combinations for the three formats",
  "Tests compare a few dozen frozen files.",
  ["bin.c", "segment.c", "fixup.c", "end.c"],
  [("image layout and fixup resolution", "bin.c")], ["output file read by an independent reader/loader"])
p("C20", "Labels, $, ORG and ALIGN denote the final location",
  "The value of every code and data label, of $, and of every distance between two labels equals the offset at which the following byte is finally emitted, ALIGN n/EVEN pads to a multiple of n, ORG sets the location, and forward references to labels and equates have the same effect as if the definition had come first.",
  ["programs"], "all sequences of code, data, label, ORG, ALIGN, EQU and segment-switch statements with forward and backward references",
  "Phase stability over several passes is a whole-program property; tests have few programs where sizes move between passes.",
  ["label.c", "posndir.c", "segment.c", "assemble.c", "equate.c", "fastpass.c", "backptch.c", "symbols.c"],
  [("location counter", "segment.c"), ("pass loop and line replay", "assemble.c, fastpass.c")])
p("C21", "An erroneous program is reported and leaves no object",
  "If any line contains an error, UASM reports an error naming that line of that file, exits with a non-zero status, and leaves no object file behind; if no error is reported, it exits with status zero and the object file is complete; errors do not depend on other correct lines around, and warnings (unless -WX) do not affect the result.",
  ["programs"], "all correct programs with one or more erroneous lines injected at any place, in main or include file or macro",
  "The .err tests are about 25 fixed files.",
  ["errmsg.c", "assemble.c", "input.c", "main.c", "H/msgdef.h"],
  [("error counting, object removal", "errmsg.c, assemble.c"), ("source position tracking", "input.c")], ["stdout, .err file, exit status, presence of the object"])
p("C22", "No input crashes, hangs or corrupts the assembler",
  "For every source text and option combination UASM terminates, with either an object or an error message; it never crashes, never loops for ever, and never reads or writes memory outside its data.",
  ["inputs"], "all byte strings as source file (in particular near-valid programs, long lines and identifiers, deep nesting, malformed directives)",
  "Tests use well-formed sources.",
  ["tokenize.c", "expreval.c", "macro.c", "expans.c", "parser.c", "hll.c", "invoke.c", "data.c", "types.c", "input.c"],
  [("length limits on lines, identifiers, tokens and nesting", "H/globals.h, tokenize.c, input.c")], ["exit status and AddressSanitizer reports"])
p("C23", "Output depends only on the source and options",
  "Assembling the same source with the same options gives the same bytes (apart from time stamps) every time, whatever was assembled before in the same run, whatever the environment, directory or memory contents; the same source assembled alone and as one of several files on a command line gives the same object and messages.",
  ["histories", "inputs"], "all sequences of modules in one run, with any directives and options in each",
  "Each test is one module in one process.",
  ["main.c", "assemble.c", "cmdline.c", "symbols.c", "memalloc.c", "reswords.c", "option.c"],
  [("per-module initialisation and cleanup", "assemble.c"), ("reserved word table reset", "reswords.c")], ["object files and messages of separate and joint runs"])
p("C24", "Equivalent source forms assemble alike",
  "Changing the case of reserved words (and, under CASEMAP:ALL, of identifiers), white space, comments, blank lines, line continuation, COMMENT blocks, line ends, or moving lines to an include file does not change the output; neither does writing an equivalent synonym (BYTE/DB, STRUC/STRUCT, REPT/REPEAT, EXTRN/EXTERN...).",
  ["programs"], "all programs x such rewritings",
  "Each test has one spelling.",
  ["tokenize.c", "input.c", "preproc.c", "reswords.c", "symbols.c"],
  [("tokenizer", "tokenize.c"), ("line input", "input.c")])
p("C25", "The listing shows the bytes and offsets that were emitted",
  "In a listing file (-Fl) the offset and code bytes shown for each source line are those in the object at that place, every source line appears once in order, equate values are right, and the symbol table shows each segment, label, structure and procedure with its true size, type and value; requesting a listing does not change the object.",
  ["programs"], "all programs x listing options",
  "No test requests a listing.",
  ["listing.c", "input.c", "assemble.c"],
  [("LstWrite, LstWriteCRef", "listing.c")], ["the .lst file against the object"])
p("C26", "Debug line numbers and symbols match the code",
  "With -Zd/-Zi the line records map code offsets to the source line that produced the code at that offset (in increasing order, right file), and CodeView symbol and type records are well formed and name each procedure, label, variable, parameter, local and type with its true address, size, offset and members; debug options do not change the code.",
  ["programs"], "all programs with procedures, data, types and include files x debug options, OMF and COFF",
  "codeview and coffdbg tests have no expected files.",
  ["dbgcv.c", "linnum.c", "coff.c", "omf.c"],
  [("CodeView writer", "dbgcv.c"), ("line number queue", "linnum.c")], ["llvm-readobj/own reader of the object"])
p("C27", "Public names are decorated and scoped as the language type says",
  "Each public, external and procedure symbol appears in the object under the name that its language type (C, SYSCALL, STDCALL, PASCAL/FORTRAN/BASIC, FASTCALL, VECTORCALL, SYSTEMV) and the CASEMAP, -C*, -zt, -zc, -zv options prescribe, PRIVATE/EXPORT/PUBLIC visibility is respected, and symbols that were not declared public or external do not appear as global.",
  ["configurations", "programs"], "all symbol kinds x language types x decoration options x output formats",
  "Few decorated names are tested.",
  ["mangle.c", "symbols.c", "proc.c", "extern.c", "coff.c", "elf.c", "omf.c", "cmdline.c", "option.c"],
  [("decoration functions", "mangle.c")], ["symbol table of the object"])
p("C28", "INCLUDE and INCBIN bring in exactly the named content",
  "INCLUDE (nested, via -I and INCLUDE paths, quoted names) has the effect of the file's lines in place; INCBIN with optional start and length emits exactly these bytes of the file; missing files are errors.",
  ["inputs"], "all file contents, sizes, offsets, lengths, nesting depths and search paths",
  "One or two fixed files are tested.",
  ["input.c", "preproc.c", "directiv.c", "cmdline.c"],
  [("file search and stack", "input.c"), ("INCBIN", "directiv.c")])
p("C29", "Command-line options equal their source directives",
  "-D, -0..-10[p], -m?, -G?, -C?, -Zp, -Sp, -Fo, -Fl, -Fi, -I, output format and similar options have the effect of the corresponding source statement or file placement, in any order and combination, also when given in a response file or the UASM environment variable.",
  ["configurations"], "all option sets and orders, on the command line, in response files and in the environment",
  "Tests use about ten fixed option strings.",
  ["cmdline.c", "main.c", "assemble.c"],
  [("option table", "cmdline.c")], ["objects with option against objects with directive"])
p("C30", "Instructions above the selected CPU are rejected",
  "With a CPU directive (.8086 ... .686p, .mmx, .xmm, .x64, .8087...) an instruction, register or addressing mode that was introduced after that CPU is rejected, one that the CPU has is accepted, and raising the CPU level never changes the encoding or rejects what was accepted.",
  ["inputs", "configurations"], "all instructions x CPU directives",
  "A few examples are tested.",
  ["cpumodel.c", "parser.c", "codegen.c", "H/instruct.h", "H/special.h"],
  [("cpu bits of instruction table entries", "H/instruct.h"), ("SetCPU", "cpumodel.c")])
p("C31", "Win64 unwind data describes the prologue",
  "For every FRAME procedure (explicit .pushreg/.allocstack/.savereg/.savexmm128/.setframe/.endprolog or OPTION FRAME:AUTO) the .pdata/.xdata entries cover exactly the procedure, and interpreting the unwind codes at any point after the prologue restores the caller's stack pointer and all saved registers.",
  ["programs"], "all prologue directive sequences and automatic prologues",
  "A few frozen cases are compared.",
  ["proc.c", "H/win64seh.h", "coff.c"],
  [("SEH directives, WriteSEHData", "proc.c")], ["unwinder model run on the object against the executed prologue"])
p("C32", "The host build does not influence the output",
  "The Windows program and a native 64-bit build of the same sources produce the same object files, listings and messages for the same source and options.",
  ["inputs", "configurations"], "all sources and options",
  "Only the Windows build is tested.",
  ["main.c", "memalloc.c", "input.c", "H/inttype.h", "H/globals.h"],
  [("integer type definitions", "H/inttype.h")], ["objects of the two builds"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
