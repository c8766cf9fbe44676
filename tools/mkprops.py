#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one readable source)."""
import json, os
I="m68000/src/interpreter.rs"; F="m68000/src/interpreter_fast.rs"; D="m68000/src/interpreter_disassembler.rs"
AM="m68000/src/addressing_modes.rs"; EX="m68000/src/exception.rs"; IN="m68000/src/instruction.rs"; U="m68000/src/utils.rs"
MA="m68000/src/memory_access.rs"; SR="m68000/src/status_register.rs"; L="m68000/src/lib.rs"; ISA="m68000/src/isa.rs"; DE="m68000/src/decoder.rs"
AS="m68000/src/assembler.rs"; DI="m68000/src/disassembler.rs"; CP="m68000/src/cpu_details.rs"
FF="m68000-ffi/src/lib.rs"
ALL="every opcode word, every register file, every memory content and every pattern of refused accesses, on both CPU models"
NOSAMPLE="Unit tests run a few hundred concrete instruction instances with one memory; this quantifies over all 65536 opcode words, all register values and all memories."
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs or ["the CPU registers and the calls made to the user's memory implementation after one interpreter step"],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
X=["inputs","configurations"]
XF=["inputs","configurations","fault_sequences"]
ST=[("registers","data, address, stack pointers, status register, program counter",L)]

p("C01","User mode cannot execute privileged instructions or gain privilege",
 "An instruction that the manual marks privileged (AND/EOR/OR immediate to SR, MOVE to SR, MOVE USP, RESET, RTE, STOP), executed in user mode, reports a privilege violation, makes no memory access beyond fetching its own words and leaves every register except the program counter as it was. In supervisor mode these instructions are never refused. No instruction executed in user mode changes the supervisor bit, the trace bit, the interrupt mask or the supervisor stack pointer.",
 XF,"All 65536 opcodes, all user-mode states, all memories.",NOSAMPLE,[I,F,D],[("supervisor check at the head of each privileged handler",I),("status register writes",I)],ST)
p("C02","Word and long accesses at odd addresses raise an address error",
 "A word or long operand access at an odd address never reaches the memory implementation: the instruction reports an address error (vector 3) and makes no further access; likewise an instruction is never fetched from an odd program counter. An even address, or a byte access, never raises an address error.",
 XF,ALL,NOSAMPLE,[I,AM,MA],[("even-address check before word/long access",I)],ST)
p("C03","A refused memory access ends the instruction with an access error",
 "When the memory implementation refuses any access made by an instruction (opcode fetch, operand read or write, stack access, vector fetch), the interpreter reports an access error (vector 2) and that refused access is the last one the instruction makes. No refusal is ever ignored, and an access error is never reported without a refusal.",
 XF,"All opcodes and states, with the refusal at every possible access position.",NOSAMPLE+" No test refuses the k-th access for every k.",[I,MA,IN,EX],[("Option to exception-vector mapping at each access",I)],ST)
p("C04","Executing an instruction never panics",
 "No opcode, register content, memory content or refused access makes an interpreter step panic (arithmetic overflow, division, out-of-range index, unwrap), in either execution path.",
 XF,ALL,NOSAMPLE,[I,F,D,IN,AM,U],[("arithmetic, indexing, unwrap and expect sites reachable from the interpreter",I)],ST)
p("C05","Every instruction makes a bounded number of memory accesses",
 "Executing one instruction always terminates and makes at most the number of memory accesses the manual implies for that instruction (one per extension word and operand, one per register for multi-register moves, two or four per peripheral move), independent of register and memory contents.",
 XF,ALL,NOSAMPLE,[I,AM,MA],[("multi-register, shift and peripheral loops",I)],ST)
p("C06","Each of the 65536 opcodes is classified as the manual defines",
 "For every 16-bit opcode, the decoder names the instruction the M68000 manual assigns to that encoding, including the operand-mode restrictions that make an encoding illegal, and every other encoding is reported as unknown (illegal, line-A or line-F).",
 ["inputs"],"All 65536 opcode words.","Tests decode a handful of opcodes; the table has 65536 entries.",[DE,ISA],[("opcode classification table",DE),("opcode to instruction conversion",ISA)])
p("C07","Each instruction consumes exactly its own extension words",
 "After an instruction that does not transfer control and is not ended by a bus, address, illegal or privilege exception, the program counter has advanced past the opcode and exactly the extension words its encoding defines, which were read as consecutive words starting right after the opcode and each used once, and no other word of the instruction stream is read.",
 XF,ALL,NOSAMPLE,[F,IN,AM,MA,D],[("instruction word iterator and program counter update",F)],ST)
p("C08","Both execution paths behave identically",
 "Executing the same instruction through the direct path and through the disassembling path, from the same state and with the same memory behaviour, gives the same sequence of memory accesses, the same registers, the same stopped state, the same reported exception and the same cycle count.",
 XF,ALL,"The two paths are separate dispatch tables and separate operand decoders; tests compare none of the states they leave behind.",[F,D,I,IN],[("direct dispatch",F),("disassembling dispatch",D)],ST)
p("C09","Effective addresses are computed as the addressing modes define",
 "Memory operands are accessed at the address their addressing mode defines: register indirect, post-increment, pre-decrement, displacement, index (word or long index register, signed 8-bit displacement), absolute short (sign-extended) and long, and PC-relative measured from the extension word's own address. Post-increment and pre-decrement change the address register by exactly the operand size, or by 2 for byte operands through the active stack pointer, exactly once per instruction.",
 X,ALL,NOSAMPLE,[AM,I],[("effective address evaluation",AM),("post-increment and pre-decrement",I)],ST)
p("C10","An instruction changes only what it names",
 "Registers and memory that are not a destination of an instruction, and not an address register it post-increments or pre-decrements, are left unchanged, as is the stack pointer of the inactive mode. Byte and word results written to a data register preserve the register's upper bits, results written to an address register replace all 32 bits, and every memory write of an instruction goes to an operand the instruction defines.",
 X,ALL,NOSAMPLE,[I,L],[("register write helpers",L),("per-instruction handlers",I)],ST)
p("C11","Condition codes an instruction does not define are preserved",
 "Each instruction changes only the condition codes the manual lists for it: codes marked unaffected keep their value (X in particular for moves, logic, compares, multiplies, divides and rotates without extend), codes marked always cleared or always set are so, and for extended arithmetic Z is only ever cleared. No instruction other than those addressing the status register changes the trace, supervisor or interrupt mask fields.",
 X,ALL,NOSAMPLE,[I],[("condition code updates in each handler",I)],ST)
p("C12","N and Z reflect the result at the operation width",
 "For every instruction that defines N and Z from a result, N equals the most significant bit of the result at the operation's size (byte, word or long) and Z is set exactly when all bits of the result at that size are zero, whatever the remaining bits of the destination register hold.",
 X,ALL,NOSAMPLE,[I,U],[("condition code updates in each handler",I)],ST)
p("C13","Carry, overflow and extend follow the arithmetic of the operands",
 "For the additions, subtractions, comparisons and negations (with or without extend), C is the carry or borrow out of the operation at its size, V is set exactly when the signed result does not fit, and X follows C where the manual says it is affected; the extended forms include the incoming X in the operation.",
 X,ALL,NOSAMPLE,[I,U],[("carrying operations",U)],ST)
p("C14","The sixteen conditions test the codes the manual defines",
 "For each of the sixteen condition encodings, conditional branches, decrement-and-branch and conditional set act on exactly the Boolean combination of N, Z, V and C that the manual assigns to it: branch taken or not, loop continued or not, byte set to all ones or zeros. Decrement-and-branch decrements only the low word of its counter and only when the condition is false, and stops at -1.",
 X,ALL,NOSAMPLE,[SR,I],[("condition evaluation",SR)],ST)
p("C15","Data movement instructions deliver the source value",
 "Moves, register-list moves, peripheral moves, quick moves, exchanges, swaps, sign extensions, address loads and pushes, clears, links, unlinks and user-stack-pointer moves write to their destination exactly the value the manual defines from their source operand: right register, right order, right extension, right bytes at the right addresses.",
 X,ALL,NOSAMPLE,[I],[("movement handlers",I)],ST)
p("C16","Integer arithmetic results are correct",
 "The results written by the addition, subtraction, negation and multiplication instructions (plain, immediate, quick, address and extended forms) equal the manual's definition modulo the operand size, with the operands in the defined roles, sign-extended where the destination is an address register.",
 X,ALL,NOSAMPLE,[I,U],[("arithmetic handlers",I)],ST)
p("C17","Logic and bit-manipulation results are correct",
 "AND, OR, exclusive OR, complement, test-and-set and the bit test/change/clear/set instructions write exactly the bits the manual defines, bit numbers being taken modulo 32 on registers and modulo 8 in memory, and Z of the bit instructions being the complement of the tested bit before the change.",
 X,ALL,NOSAMPLE,[I],[("logic and bit handlers",I)],ST)
p("C18","Shifts and rotates produce the defined result and flags",
 "Every arithmetic, logical and rotate (with and without extend) instruction, for every count from an immediate (zero meaning eight) or from a register modulo 64, produces the shifted value at its size and the C, X and V flags the manual defines, including the zero-count cases.",
 X,ALL,NOSAMPLE,[I],[("shift and rotate handlers",I)],ST)
p("C19","Division traps on zero and never writes a truncated quotient",
 "A divide by a zero divisor reports a zero-divide exception and leaves the destination register unchanged; when the quotient does not fit in 16 bits, the destination is unchanged and V is set; otherwise the destination receives the quotient in its low word and the remainder, with the dividend's sign, in its high word, and V and C are clear.",
 X,ALL,NOSAMPLE,[I],[("division handlers",I)],ST)
p("C20","Packed decimal arithmetic is correct for valid digits",
 "For operands that are valid two-digit packed decimals, the decimal add, subtract and negate instructions give the decimal result modulo 100 including the extend bit, set C and X on a decimal carry or borrow, and only ever clear Z, and do so when the result is non-zero.",
 X,"All pairs of valid packed-decimal bytes, both extend values, every register pair and memory form.",NOSAMPLE,[I],[("decimal handlers",I)],ST)
p("C21","Jumps, branches, calls and returns go where the encoding says",
 "Branches add their displacement (byte in the opcode, or the extension word when it is zero) to the address following the opcode, jumps go to the effective address, and both leave the stack alone; calls push the address of the next instruction on the active stack and returns pop it, leaving the stack pointer balanced.",
 X,ALL,NOSAMPLE,[I],[("control transfer handlers",I)],ST)
p("C22","Instructions raise exactly the exceptions the manual defines",
 "TRAP n reports vector 32+n, TRAPV vector 7 exactly when V is set, CHK vector 6 exactly when the register word is negative or above the bound, divides vector 5 exactly on zero, unknown opcodes vector 4, 10 or 11 according to their upper digit; no other instruction reports these vectors, and an instruction that reports no exception completes.",
 XF,ALL,NOSAMPLE,[I],[("exception-returning handlers",I)],ST)
p("C23","Exception entry saves the state the CPU model defines",
 "Processing an exception switches to supervisor mode with tracing off, pushes on the supervisor stack, in the frame layout of the CPU model, the program counter and the status register as they were before, then continues at the address held in the exception's vector; interrupts also raise the mask to their own level, other exceptions leave the mask unchanged.",
 XF,"Every exception vector, every state, every memory behaviour, both CPU models.","Tests run one exception on one model.",[EX],[("exception processing",EX)],ST)
p("C24","Return from exception restores what exception entry saved",
 "Return from exception pops the status register and the program counter from the supervisor stack and removes exactly the frame that exception entry pushes on that CPU model (including the format word, whose unknown values report a format error on the model that has one), so that entry followed by return restores the status register, program counter and supervisor stack pointer.",
 XF,"Every state and frame content, both CPU models.",NOSAMPLE,[I,EX],[("return from exception",I),("exception processing",EX)],ST)
p("C25","No requested exception is lost and the highest priority runs first",
 "Every exception requested before an instruction step is either taken by a later step, or still pending, unless a reset clears it; two different requests never replace one another. When several are taken in one step, their frames are stacked in increasing priority, so that the handler of the one with highest priority runs first.",
 ["histories","inputs"],"All sequences of up to three requests of any vectors, interleaved with interpreter steps.","Depends on combinations of pending vectors; tests request at most one.",[EX],[("pending exception set and its ordering",EX)],[("pending exceptions","requests not yet processed",L)])
p("C26","Interrupt requests obey the interrupt mask",
 "An interrupt request of level 1 to 6 is taken only when its level is above the mask in the status register, and level 7 is always taken; a masked request stays pending and is taken once the mask allows it. Non-interrupt exceptions are never held back by the mask.",
 ["histories","inputs"],"Every level, every mask value, autovectored and on-chip interrupts.","Tests do not combine masks and levels.",[EX],[("mask comparison",EX)],[("interrupt mask","3-bit field of the status register",SR)])
p("C27","A stopped CPU does nothing until an unmasked interrupt, trace or reset",
 "STOP in supervisor mode loads the status register from its immediate word and stops; while stopped an interpreter step makes no memory access, changes no register and reports no exception. Requesting a reset, a trace, or an interrupt that the mask lets through ends the stopped state; requesting any other exception does not.",
 ["histories","inputs"],"All immediate words, all states, all requested vectors.","Tests do not run stopped steps for every vector.",[I,F,D,EX],[("stopped flag",L)],[("stopped flag","true after STOP",L)])
p("C28","Reset loads the initial stack pointer and program counter",
 "A reset request makes the next step load the supervisor stack pointer from address 0 and the program counter from address 4, enter supervisor mode with tracing off and the mask at 7, end the stopped state, discard all other pending exceptions and push nothing. A newly created core with reset has exactly that request pending, and one without has none and all registers zero with status register 0x2700.",
 ["histories","inputs"],"Every prior state and set of pending requests.","Tests build a core in one state.",[EX,L],[("reset processing",EX),("constructors",L)])
p("C29","A traced instruction reports trace, and only a traced one does",
 "When the trace bit is set at the start of an instruction which completes and is not privileged, the step reports a trace exception (vector 9); when the trace bit is clear at the start no trace is ever reported, and an instruction that itself reports an exception reports that one.",
 X,ALL,"Trace is tested on no instruction.",[F,D,ISA],[("trace check after execution",F)],ST)
p("C30","Status register conversions and immediates are exact",
 "The 16-bit status register value has T at bit 15, S at 13, the mask at 10-8 and X, N, Z, V, C at bits 4-0 with all other bits zero; converting from a word reads exactly those bits and writing the condition codes changes only those five. Instructions that read or write the status register or condition codes, or combine them with an immediate, apply exactly that conversion and affect the condition-code byte only when they address only it.",
 ["inputs"],"All 65536 words and all field values.","Tests convert a few words.",[SR,I],[("status register conversions",SR)])
p("C31","Every completed instruction takes at least one cycle",
 "Each instruction that completes reports a cycle count greater than zero, so that a run with a cycle budget always makes progress; processing a pending exception or a reset also reports a non-zero time.",
 X,ALL,"Tests compare a few counts.",[CP,I],[("per-model timing constants",CP)])
p("C32","Run loops execute whole steps and report exceptions faithfully",
 "Running for a number of cycles executes steps until at least that many cycles have elapsed or the CPU is stopped, queues every exception the steps report, and returns the cycles really used, or the whole request when stopped. Running until an exception returns the first reported exception and executes nothing after it. A single step that queues exceptions queues exactly the one its instruction reported.",
 ["histories","inputs"],"Every budget and every sequence of step outcomes.","Tests run one program with one budget.",[F,D],[("run loops",F)])
p("C33","C memory callbacks are called as declared and their verdict respected",
 "Each memory operation of an instruction executed through the C interface calls exactly the matching user callback once, with the operation's address and value and the user's data pointer, and takes a zero exception field as success with the returned data truncated to the operation's width and a non-zero one as a refusal.",
 ["inputs","configurations"],"All addresses, values and callback results.","There are no tests of the C interface's Rust side.",[FF],[("callback adapter",FF)],None,["calls made to the C callbacks"])
p("C34","The C header describes the binary interface of the library",
 "Every function exported by the C interface library is declared in the shipped header with matching parameter and return types, every declared function is exported, and every structure and enumeration in the header has the size, field offsets and values of its Rust counterpart.",
 ["configurations"],"Every exported function, structure, field and enumerator.","No test compiles the header against the library.",["m68000-ffi/src/lib.rs","include/m68000/m68000-ffi.h"],[("exported functions",FF)],None,["the exported symbols and the C header"])
p("C35","C interface functions do what the Rust operations they wrap do",
 "Each exported C function performs exactly the wrapped operation on the core passed to it: same steps, same reported vector (zero for none), same cycle count, same registers read or written, for both CPU models, without touching memory outside the objects passed to it.",
 ["inputs","configurations"],"All exported functions and arguments.","There are no tests of the C interface's Rust side.",[FF,"m68000-ffi/src/mc68000.rs","m68000-ffi/src/scc68070.rs"],[("wrapper macro",FF)],None,["results and out-parameters of the exported functions"])
p("C36","Provided memory implementations are big-endian, bounded and never panic",
 "The memory implementations provided for byte and word slices read and write values in big-endian order at the given address, refuse every access that does not lie wholly inside the slice, never panic for any address and length, and a write changes only the addressed bytes (a write to a shared slice, which by its documentation panics, stores nothing and reports no success); the default long access is a high-word access followed by a low-word access at the next word.",
 ["inputs"],"All addresses and slice lengths.","Tests use a fixed array and a few addresses.",[MA],[("slice implementations",MA),("default long accessors",MA)],None,["results of the memory trait methods"])
p("C37","Assembled instructions decode to what was asked for",
 "Every code-emitting function returns the opcode and extension words which, decoded by this library, give the instruction and operands it was asked to emit, for every register, size, addressing mode and value the instruction has; for any other argument it panics.",
 ["inputs"],"All register numbers, sizes, addressing modes and immediate values.","Tests assemble one instance per instruction.",[AS,IN],[("emitters",AS),("operand decoders",IN)],None,["the words returned by the emitters"])
p("C38","Disassembly text denotes the decoded instruction",
 "The text produced for a decoded instruction names the instruction, size and condition and lists the operands in source-to-destination order with their register numbers, displacements, immediates and branch target, for every value of the extension words, and disassembling never panics; for a word that is no instruction it gives the word. The disassembling step returns the address of the instruction it executed and that instruction's text, and an empty text when it executed none. Layout, number base and letter case are not prescribed.",
 ["inputs"],"All decoded instructions with all extension words.","Tests disassemble one instance per instruction.",[DI],[("formatters",DI)],None,["the text returned by the disassembler"])
p("C39","MC68000 instruction and exception times equal the user's manual tables",
 "On the MC68000 model a completed instruction reports the number of clock periods the instruction execution time tables of the M68000 User's Manual give for that instruction, size, addressing mode, shift count, register list and branch outcome (the maximum where the tables give one), and processing a bus error, address error, illegal instruction, zero divide, CHK, TRAPV, privilege violation, trace, interrupt (vectors 24 to 31), TRAP or reset adds the time of its exception table.",
 X,ALL,"Tests compare no cycle counts.",[CP,"m68000/src/cpu_details/mc68000.rs",I],[("per-model timing constants",CP),("execute methods",I)])
p("C40","A run always finishes in bounded real time",
 "Every call to a run function returns in time proportional to its cycle budget whatever the program does.",
 ["histories"],"All programs and budgets.","Programs are unbounded.",[F],[("run loops",F)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["title"]
