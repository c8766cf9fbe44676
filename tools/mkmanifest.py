#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json from one table."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked MIR (bit-precise decision-diagram domain, joins at every merge)"
SPEC = ["the instruction definitions in m68sa/src/spec.rs and isa.rs, written from the M68000 Programmer's Reference Manual"]
ASSUME = ["the memory implementation may return any value and refuse any access, and does not call back into the core",
          "no exception is pending and the core is not stopped at the start of the analysed instruction (C23 to C28 analyse those cases)"]
NOTE_I = ("Every obligation is decided for all register, flag and memory contents of the analysed opcodes from the monomorphised MIR of both CPU models; "
          "undecided obligations are counted and never alarm. Trusts rustc's MIR, the analyser's transfer functions and the reference tables. ")
C = {}
def c(id, level, note, rule, analysed, technique=AI, trusted=SPEC, assumptions=ASSUME, floor=1):
    C[id] = dict(level=level, note=note, rule=rule, analysed=analysed, technique=technique, trusted=trusted, assumptions=assumptions, floor=floor)
ALL = "All 65536 opcode words on both CPU models, and on the disassembling path of one model (thorough: of both), refusals symbolic at every access."
ALLA = "All 65536 opcode words on both CPU models, and on the disassembling path of one model, with every access accepted (thorough: refusals symbolic, both models on both paths)."
def sub(x): return f"All opcode words of {x}, on both CPU models, and on the disassembling path of one model, every access accepted (thorough: refusals symbolic, both models on both paths)."
c("C01","proof",NOTE_I,"With S=0 at entry: final S, T, mask and SSP equal their entry values for every opcode; privileged opcodes report vector 8 exactly when S=0, make no other access and leave the registers.",ALL,floor=300000)
c("C02","proof",NOTE_I,"No word or long event has an odd address; vector 3 is reported exactly where the manual has a misaligned access.",ALL,floor=300000)
c("C03","proof",NOTE_I,"Vector 2 is reported if and only if some access was refused, and no access follows a refused one.",ALL,floor=400000)
c("C04","other",NOTE_I+"One recorded finding remains (refused extension word).","No panicking terminator (assert, unwrap, index, division, explicit panic) is reachable with a satisfiable guard.",ALL,floor=150000)
c("C05","proof",NOTE_I,"Every loop converges within the visit bound, and each access made is one of those the manual defines, under the manual's condition.",ALL,floor=300000)
c("C07","proof",NOTE_I,"Every instruction-stream access is the next consecutive word, has the width and position of the manual's encoding, and the final PC of non-jumping instructions is the address after them.",ALLA,floor=300000)
c("C08","proof",NOTE_I,"The two entry points are analysed in one domain from the same symbolic state: events, final state, reported vector, cycle count and panic condition are identical functions.","All 65536 opcode words on both CPU models, refusals symbolic; and every exception vector pending, running and stopped, before NOP, RTE and STOP.",trusted=[],floor=4000000)
c("C09","proof",NOTE_I,"Address of every operand event and final address registers equal the addressing-mode definition.",ALLA,floor=80000)
c("C10","proof",NOTE_I,"Registers that are no destination equal their entry value, upper parts of byte/word destinations too, and every write event is an operand of the instruction at its address.",ALLA,floor=2000000)
c("C11","proof",NOTE_I,"Flags marked unaffected or constant in the manual equal their entry value or the constant; T, S and mask are unchanged by non-SR instructions.",ALLA,floor=700000)
c("C12","proof",NOTE_I,"N and Z after instructions that define them from the result equal the top bit and the zero test of the reference result at its size.",ALLA,floor=100000)
c("C13","proof",NOTE_I,"C, V and X after add, subtract, compare and negate forms equal the carry and overflow functions of the operands.",ALLA,floor=50000)
c("C14","proof",NOTE_I,"Branch decision, loop counter and Scc byte equal the condition table's function of N, Z, V, C.",sub("Bcc, DBcc and Scc"),floor=8000)
c("C15","proof",NOTE_I,"Destination value (register or write event) equals the reference function of the source.",sub("the data movement instructions"),floor=60000)
c("C16","proof",NOTE_I,"Destination value equals the reference sum, difference, negation or product.",sub("the integer arithmetic instructions"),floor=40000)
c("C17","proof",NOTE_I,"Destination value and Z of bit instructions equal the reference function.",sub("the logic and bit instructions"),floor=30000)
c("C18","proof",NOTE_I,"Result, C, X, V, N, Z equal the reference shift for each count value.",sub("the shift and rotate instructions"),floor=20000)
c("C19","proof",NOTE_I,"Vector 5 exactly when the divisor is zero; destination, V and C equal the reference quotient, remainder and overflow condition.",sub("DIVU and DIVS"),floor=3000)
c("C20","proof",NOTE_I,"On valid packed-decimal operands, result, C, X and Z equal the reference decimal function; N and V are undefined.",sub("ABCD, SBCD and NBCD"),floor=2000)
c("C21","proof",NOTE_I,"Final PC, pushed return address and stack pointer equal the reference.",sub("the branches, jumps, calls and returns"),floor=8000)
c("C22","proof",NOTE_I,"The set of states in which vectors 4, 5, 6, 7, 10, 11, 32-47 are reported equals the manual's.",ALLA,floor=700000)
EXC = ["the exception frame, vector, mask and priority tables in m68sa/src/scen.rs, written from the MC68000 and SCC68070 manuals"]
AEX = ["every access of the exception processing is accepted, and the program counter, the supervisor stack pointer and the vectors are even (the refused and odd cases are C02, C03, C04)",
       "requests are made through the public exception method"]
NOTE_E = ("The public request method, then one interpreter step, are analysed together over an arbitrary register, flag and memory state, with an abstract ordered set for the pending requests (ordered by the crate's own Ord). "
          "Undecided obligations are counted and never alarm. Trusts rustc's MIR, the analyser's transfer functions, its model of BTreeSet and Vec, and the tables in scen.rs. ")
c("C23","proof",NOTE_E,"After one request and one step: the write events are exactly the frame of the CPU model below the old SSP with the old SR, PC and format word, the vector's long word is read, the final PC, S, T, mask and SSP are the defined functions, everything else equals its entry value.","Vectors 1 to 255 on both CPU models, any state.",trusted=EXC,assumptions=AEX,floor=8000)
c("C24","proof",NOTE_E,"Exception entry followed by RTE, with the frame reads resolved to the frame writes, is the identity on SR, PC, SSP and all registers; RTE itself against its definition.","Vectors 1 to 255 (2 and 3 on the SCC68070 only), both CPU models, any state; the RTE opcode on arbitrary memory.",trusted=EXC+SPEC,assumptions=AEX,floor=6000)
c("C25","other",NOTE_E,"After several requests and one step, each request is taken or pending and never both, nothing else becomes pending or is taken, the vector reads are ordered by increasing priority, and the final PC is the handler of the last one taken.","Every single vector, all ordered pairs of representatives of every class with every vector (thorough: all pairs), all ordered triples of nine (thorough: fourteen) representatives, both CPU models.",trusted=EXC,assumptions=AEX,floor=60000)
c("C26","proof",NOTE_E,"A vector is read if and only if its level exceeds the mask or it is not maskable; held requests stay in the pending set and write nothing.","As C25, and STOP with each interrupt pending on both execution paths.",trusted=EXC,assumptions=AEX,floor=40000)
c("C27","proof",NOTE_E,"From a stopped state each request ends the stop exactly when defined; while stopped a step has no event and changes nothing; STOP sets the stop flag and SR exactly when privileged, and wakes when it unmasks a pending interrupt.","All 256 vectors and no request, both execution paths, both CPU models; the STOP opcode on arbitrary states.",trusted=EXC+SPEC,assumptions=AEX,floor=12000)
c("C28","proof",NOTE_E,"With a reset among the requests a step writes nothing, reads only addresses 0 to 7, and the final state is the defined one with an empty pending set; the two constructors build the defined state.","Reset alone, before and after every other vector, and in triples, running or stopped, both CPU models; both constructors.",trusted=EXC,assumptions=AEX,floor=25000)
c("C29","proof",NOTE_I,"Vector 9 is reported exactly when T was set at the start, the instruction is not privileged and it reports nothing else.",ALLA,floor=100000)
c("C31","proof",NOTE_I,"The cycle count is non-zero whenever the instruction completes, and a step that also processes an exception or a reset counts more than one that does not.",ALLA+" Every exception vector and reset.",trusted=[],floor=100000)
c("C39","proof",NOTE_I+"The SCC68070's times are not covered: its manual is not available here and its tables are not reproduced from memory. ","The cycle count of every completed step, as a function of the machine state, equals the time the tables give for the opcode (condition, shift count, register list and loop counter included); a step that processes an exception or reset takes the table's time more than the same step without it.","All 65536 opcode words on the MC68000 model, both execution paths, and the exception vectors the table lists.",trusted=["the timing tables in m68sa/src/time.rs, written from section 8 of the M68000 User's Manual"],assumptions=["memory adds no wait states; accepted accesses; the instruction completes (the time spent in an instruction that traps is part of the exception's time)"],floor=90000)
c("C38","proof","Formatting is modelled on the values being formatted: a text is a sequence of characters and of numbers still to be printed, each under its condition; nothing is printed. Spacing, letter case, number base and the order of registers inside a register list are not prescribed; a register list may also be given as its mask. Undecided obligations are counted and never alarm. Trusts rustc's MIR, the analyser's transfer functions and its model of core::fmt. ","The text of each decoded instruction, as a sequence of characters and numbers that are functions of the opcode and extension words, denotes in Motorola's assembler syntax the reference decoder's instruction: mnemonic, size, condition, operands in source-to-destination order, register numbers, displacements, immediates and absolute branch targets; an undefined word's text gives the word and its address; the disassembling step returns the address of the instruction and the text of that instruction, an empty one when none was executed; no panic.","All 65536 opcode words with every extension word symbolic: decoding followed by disassembly, and the disassembling step on both CPU models.",trusted=["the syntax tables in m68sa/src/text.rs, written from the M68000 Programmer's Reference Manual"],assumptions=["an instruction as the decoder produces it; accepted fetches"],floor=1000000)
NOTE_F = "The functions are analysed from arbitrary arguments; undecided obligations are counted and never alarm. Trusts rustc's MIR and the analyser's transfer functions. "
c("C06","proof",NOTE_F,"Isa::from, applied to each opcode word, returns the variant the reference decoder names.","All 65536 opcode words.",trusted=["the encoding tables in m68sa/src/isa.rs, written from the M68000 Programmer's Reference Manual"],assumptions=["the discriminant order of Isa follows its declaration; operands are C07's and C09's"],floor=60000)
c("C30","proof",NOTE_F+NOTE_I,"Each conversion, operator and constructor of StatusRegister equals the defined bit function for every argument; the instructions that read or write SR or CCR leave SR and their destination at the reference value.","Every From, assign operator, set_ccr and default of StatusRegister; "+sub("MOVE, ANDI, ORI and EORI to and from SR and CCR, STOP, RTE and RTR"),floor=2000)
c("C32","other",NOTE_F,"Final state, events, result, pending set and memory image of each run function equal those of the defined composition of single steps and exception requests, as functions of the budget, the state and the memory.","cycle, cycle_until_exception, loop_until_exception_stop and interpreter on both CPU models, programs of one to three instructions of every reporting behaviour with a symbolic budget, registers, flags and stopped state.",trusted=[],assumptions=["programs of the listed shapes, accepted accesses; longer runs repeat the same loop body"],floor=40000)
c("C36","proof",NOTE_F,"Result, refusal condition, elements stored and panic condition of each method of each slice implementation equal the defined functions of length, address, content and value.","The seven methods of the four slice implementations, including the default long accesses, for every length below 2^62.",trusted=[],assumptions=["word and long accesses of [u16] are made at even addresses, as the trait guarantees"],floor=90)
c("C37","proof",NOTE_F,"Each emitter returns the operation word and extension words of the encoding table as functions of its arguments, and panics exactly when the arguments denote no instruction.","The 88 public emitters for every combination of size, direction, condition and addressing mode, with every register number, displacement and immediate value symbolic.",trusted=[],assumptions=["displacements and immediates are not restricted beyond their types; a branch displacement that fits in eight bits uses the short form"],floor=10000)
NOTE_C = "The C interface crate is compiled by cargo with the analyser in place of rustc; each exported function and the Rust operation it wraps are analysed from one symbolic state. Undecided obligations are counted and never alarm. Trusts rustc's MIR, the analyser's transfer functions and its models of Box, CString and the raw copies. "
c("C33","proof",NOTE_C,"Each memory operation of the callback structure calls the callback of its own name exactly once, with the address, the value and the user pointer; a zero exception field gives the returned data cut to the operation's width, any other a refusal; the structure is left unchanged.","The seven operations for every address, value and callback answer.",trusted=[],floor=60)
c("C34","proof","The Rust side is rustc's own layout and signature of every exported function and every repr(C) type it reaches; the C side is clang type-checking one static assertion per fact against the shipped headers. Trusts both compilers on the x86-64 target. ","Every exported function is declared with its type and every declared function exported; size, alignment, field offset, field type, enumerator and union member of each type in the headers equal rustc's; the headers compile on their own as C and C++.","All extern functions of m68000-ffi, all types of their signatures and all repr(C) types of m68000 that the headers declare.",trusted=["clang's and rustc's layout of C types"],assumptions=["x86-64 Linux, the only target installed here"],floor=300)
c("C35","other",NOTE_C,"Each exported function leaves the core, the memory accesses and their order, the pending exceptions, the cycle count, the reported vector and the returned address as the Rust operation does; a text buffer is never written outside its length and always ends in a zero; the register functions read and write all registers and nothing else; new and delete pair one allocation.","All exported functions of both CPU models: the stepping functions on programs of one to two instructions (thorough: three) of every reporting behaviour, all register states and buffer lengths; every vector; fetches at any address.",trusted=[],assumptions=["the pointers passed are valid and the text buffer is as long as stated","programs of the listed shapes; the functions wrapped are analysed for all programs elsewhere"],floor=60000)
N = {
 "C40":"programs are unbounded and two recorded behaviours (zero-cycle steps while an exception handler address is odd) depend on run-time histories no static bound reaches; C05 and C31 decide the per-instruction part",
}
TODO = json.load(open(os.path.join(H,"tools/todo.json"))) if os.path.exists(os.path.join(H,"tools/todo.json")) else {}
ids = [json.loads(l)["id"] for l in open(os.path.join(H,"properties.jsonl"))]
man = {"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "notes":"All checks are one static analyser (m68sa, a rustc driver) reading /repo's current sources; see DESIGN.md. No hooks in /repo are used."}
for i in ids:
    if i in C:
        x=C[i]
        man["checks"].append({"property":i,"quick_cmd":f"bash run.sh {i}","thorough_cmd":f"bash run.sh {i}","evidence_file":f"evidence/{i}.json","technique":x["technique"],"level":x["level"],"level_note":x["note"].strip()})
    else: man["not_applicable"].append({"property":i,"reason":N.get(i) or TODO.get(i,"no analysis has been built for it")})
json.dump(man,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
json.dump({i:{k:x[k] for k in ("rule","analysed","trusted","assumptions","floor")} for i,x in C.items()},open(os.path.join(H,"tools/rules.json"),"w"),indent=1)
print(len(man["checks"]),"checks,",len(man["not_applicable"]),"not applicable")
