#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    P.append(d)

M = "src/machine/mod.rs"; AM = "src/machine/asm/mod.rs"; TR = "src/machine/asm/traces.rs"
TM = "src/machine/trace.rs"; DEC = "src/decoder.rs"; EX = "src/instructions/execute.rs"
X64 = "src/machine/asm/execute_x64.S"; A64 = "src/machine/asm/execute_aarch64.S"
COM = "src/instructions/common.rs"; REG = "src/instructions/register.rs"
WX = "src/memory/wxorx.rs"; FL = "src/memory/flat.rs"; SP = "src/memory/sparse.rs"; MM = "src/memory/mod.rs"
DEFI = "definitions/src/instructions.rs"; DEFA = "definitions/src/asm.rs"

p("C01", "Every instruction word decodes exactly as the RISC-V encoding says",
  "For every 16- or 32-bit instruction word, the decoder yields the operation, registers, immediate and length that the RISC-V encoding tables assign to it for the enabled extensions and machine version, and rejects every other word with an invalid-instruction error. An extension that is not enabled contributes no instruction. A fetch that straddles the end of a page reads the same word as one that does not.",
  ["inputs", "configurations"], "every 32-bit word, every ISA flag set without macro-op fusion, machine versions 0 to 2",
  "2^32 words times the configurations; the tests decode a few dozen words.",
  ["src/instructions/i.rs", "src/instructions/m.rs", "src/instructions/a.rs", "src/instructions/b.rs", "src/instructions/rvc.rs", "src/instructions/utils.rs", DEC, "src/instructions/mod.rs"],
  [("instruction factories", "src/instructions/{i,m,a,b,rvc}.rs factory"), ("raw decode and length selection", "src/decoder.rs decode_bits/decode_raw"), ("factory registration per ISA", "src/decoder.rs build_decoder"), ("instruction packing", "src/instructions/mod.rs Rtype/Itype/Stype/Utype/R4type")],
  observe=["Instruction value returned by the decoder", "error returned by the decoder"])
p("C02", "Interpreted instructions compute the RISC-V results for all operands",
  "For every instruction and every value of its operand registers, memory and program counter, executing it in the interpreter leaves registers, memory, reservation and program counter exactly as the RISC-V specification (with this VM's documented version rules) requires. This includes signed overflow, division by zero, shift-amount masking, sign extension of 32-bit results and high-half products. Failing accesses report the corresponding error.",
  ["inputs", "configurations"], "all operand values, all register choices, all machine states, versions 0 to 2",
  "Operand space is 2^128 per instruction; the tests sample fixed vectors per instruction.",
  [EX, COM, REG, "src/instructions/utils.rs"],
  [("one handler per opcode", "src/instructions/execute.rs handle_*"), ("shared load/store/branch helpers", "src/instructions/common.rs"), ("register arithmetic", "src/instructions/register.rs impl Register for u64")],
  observe=["registers", "memory", "pc", "returned error"])
p("C03", "Register x0 always reads as zero",
  "After any instruction has executed, in the interpreters and in the assembly execution engine, register x0 reads as zero, whatever destination register the instruction names. No instruction observes a non-zero x0.",
  ["programs", "inputs"], "every instruction with every destination, both execution engines",
  "A write to x0 has to be combined with a later read for every instruction; tests cover only a few.",
  [EX, COM, X64, A64],
  [("guarded register update", "src/instructions/common.rs update_register"), ("x0 redirection in assembly", "src/machine/asm/execute_x64.S WRITE_RD, execute_aarch64.S WRITE_RD")],
  observe=["registers()[0] after every instruction"])
p("C04", "x86-64 assembly engine computes the same results as the interpreter",
  "For every instruction the x86-64 assembly engine runs itself, and for every operand value, the resulting registers, memory, reservation, program counter and reported error are those of the interpreted instruction. Instructions it does not run itself are handed over to the interpreter unchanged.",
  ["inputs", "programs"], "all opcodes, all operand values and register choices",
  "The two engines are compared by tests on sample programs only; operand space is unbounded.",
  [X64, AM, "src/machine/asm/cdefinitions_generated.h"],
  [("opcode handlers", "src/machine/asm/execute_x64.S .CKB_VM_ASM_LABEL_OP_*"), ("memory check macros", "src/machine/asm/execute_x64.S CHECK_READ/CHECK_WRITE"), ("jump table", "src/machine/asm/execute_x64.S ckb_vm_asm_labels")],
  observe=["AsmCoreMachine state after each instruction", "return code"])
p("C05", "AArch64 assembly engine computes the same results as the interpreter",
  "For every instruction the AArch64 assembly engine runs itself, and for every operand value, the resulting registers, memory, reservation, program counter and reported error are those of the interpreted instruction. Instructions it does not run itself are handed over to the interpreter unchanged.",
  ["inputs", "programs"], "all opcodes, all operand values and register choices",
  "The test machines are x86-64, so no test executes this file at all.",
  [A64, AM, "src/machine/asm/cdefinitions_generated.h"],
  [("opcode handlers", "src/machine/asm/execute_aarch64.S .CKB_VM_ASM_LABEL_OP_*"), ("memory check macros", "src/machine/asm/execute_aarch64.S CHECK_READ/CHECK_WRITE")],
  observe=["AsmCoreMachine state after each instruction", "return code"])
p("C06", "Macro-op fusion never changes what a program computes",
  "Whenever the decoder replaces two or more adjacent instructions with one fused operation, executing the fused operation gives the same registers, memory, program counter and instruction length as executing the original sequence, for every register assignment that is fused. Sequences that do not meet the condition are left alone.",
  ["programs", "inputs"], "all register assignments and operand values of each fusable sequence",
  "Aliasing among up to six register fields makes tens of thousands of cases per rule; tests cover a few assignments.",
  [DEC, EX],
  [("fusion rules", "src/decoder.rs rule_* and decode_mop"), ("fused handlers", "src/instructions/execute.rs handle_{adc,sbb,add3a,...,wide_*,far_jump_*,ld_sign_extended_32_constant,custom_load_*}")],
  observe=["architectural state after the fused sequence"])
p("C07", "No access outside guest memory succeeds or touches host memory",
  "For every address and size, a guest or host-API access whose range is not entirely within the configured memory returns an out-of-bound error and reads or writes nothing outside it, even when address plus size wraps around 2^64. Every access wholly within memory is not refused for bounds.",
  ["inputs"], "all 64-bit addresses and sizes, all memory implementations and configured sizes",
  "Wrap-around and boundary cases over 2^128 address-size pairs; tests probe a few boundaries on the default size.",
  [MM, FL, SP, WX, AM, X64, A64],
  [("range check", "src/memory/mod.rs check_no_overflow"), ("page table lookup", "src/memory/sparse.rs fetch_page"), ("page count checks", "src/machine/asm/mod.rs check_memory_*"), ("inline checks", "execute_x64.S CHECK_READ/CHECK_WRITE")],
  observe=["Result of the access", "bytes of guest and host memory"])
p("C08", "Executable pages are never writable and only they can be executed",
  "A write through any guest instruction or memory call succeeds only if every page it touches is not executable, and an instruction fetch succeeds only if every page it touches is executable. A refused write changes no byte of memory on the refusing page.",
  ["inputs", "histories"], "all addresses and sizes incl. page-straddling ones, all page flag states",
  "Needs every combination of page permissions with every straddling access; tests check a handful.",
  [WX, MM, AM, X64, A64],
  [("permission check", "src/memory/mod.rs check_permission and src/machine/asm/mod.rs check_permission"), ("write check in assembly", "execute_x64.S CHECK_WRITE")],
  observe=["Result of store/fetch"])
p("C09", "Every page that is written is marked dirty",
  "Every successful write of one or more bytes through a guest instruction or a memory call marks every page it touches as modified. Snapshots rely on this to save each modified page.",
  ["inputs", "histories"], "all writes, all memory implementations and engines",
  "Page-straddling writes for each width, implementation and engine; tests check a few.",
  [MM, FL, SP, AM, X64, A64],
  [("set_dirty", "src/memory/mod.rs"), ("flag update per page", "src/memory/sparse.rs store_bytes/store_byte, src/machine/asm/mod.rs check_memory_writable/store_bytes"), ("inline dirty marking", "execute_x64.S CHECK_WRITE")],
  observe=["page flags after a write"])
p("C10", "All memory implementations store and load the same bytes",
  "Each memory implementation behaves as one flat, zero-initialised little-endian byte array: a load of any width at any in-range address returns the bytes last written there, zero-extended, and a store changes exactly the bytes addressed. Bulk reads and writes transfer exactly the requested range.",
  ["inputs", "histories"], "all addresses, widths, values and earlier contents",
  "Quantifies over all memory contents and addresses including page and frame straddling.",
  [FL, SP, WX, AM, MM],
  [("flat byte vector", "src/memory/flat.rs"), ("page-table walk", "src/memory/sparse.rs load/store_bytes/store_byte"), ("raw pointer accesses", "src/machine/asm/mod.rs impl Memory")],
  observe=["values returned by load*", "bytes after store*"])
p("C11", "Fresh memory reads as zero regardless of the memory's past",
  "In the assembly engine's memory (outside chaos mode), bytes of a region that has not been written since creation or reset read as zero, whichever mixture of guest instructions, program loading and host calls first touches the surrounding region. No earlier contents of the allocation become visible.",
  ["histories", "inputs"], "all sequences of loads, stores, page initialisations and resets",
  "Depends on which partial access first touches each lazily initialised frame; freshly mapped memory is zero so tests cannot see a miss.",
  [AM, X64, A64, DEFA],
  [("lazy frame initialisation", "src/machine/asm/mod.rs check_memory, inited_memory, FastMemory::prepare_memory"), ("inline frame check", "execute_x64.S CHECK_READ_FRAMES")],
  observe=["bytes read from never-written addresses"])
p("C12", "Cycle limits are enforced before each instruction's effects",
  "The cycle counter never passes the configured maximum while the machine reports success: before an instruction (or instruction block) takes effect its cost is added, and if the sum overflows or exceeds the limit the run stops with the corresponding error and the counter keeps its previous value. This holds in every execution engine.",
  ["programs", "inputs"], "all cycle functions, counters and limits",
  "Boundary combinations of counter, cost and limit on all engines; tests use small fixed limits.",
  [M, TM, X64, A64],
  [("add_cycles", "src/machine/mod.rs SupportMachine"), ("per-step accounting", "src/machine/mod.rs step, src/machine/trace.rs run_with_decoder"), ("trace accounting in assembly", "execute_x64.S .prepare_trace")],
  observe=["cycles()", "returned error"])
p("C13", "Decoded blocks account for exactly the instructions they contain",
  "A decoded block holds consecutive instructions starting at its address up to and including the first control-transfer instruction or the block limit; its recorded length is the sum of their lengths and its recorded cost the sum of their costs, followed by exactly one end marker. Continuation blocks start exactly where the first part ends.",
  ["programs", "configurations"], "all instruction sequences and cycle functions, all block builders",
  "Length/cost sums over arbitrary sequences; tests only see total cycles of sample programs.",
  [TR, TM, DEFA],
  [("decode_fixed_trace", "src/machine/asm/traces.rs"), ("DynamicTraceBuilder", "src/machine/asm/traces.rs"), ("trace build loop", "src/machine/trace.rs run_with_decoder")],
  observe=["cycles()", "pc sequence"])
p("C14", "The built-in cost model charges the documented cycles",
  "The estimating cost function assigns each instruction the published number of cycles for its class, the same for both versioned encodings of an operation, and charges one cycle for anything not listed; the constant function charges one.",
  ["inputs"], "every opcode",
  "Consensus constants over all opcodes; tests check total cycles of a few programs.",
  ["src/cost_model.rs"], [("estimate_cycles", "src/cost_model.rs"), ("constant_cycles", "src/cost_model.rs")], observe=["returned cycle count"])
p("C15", "Execution is deterministic",
  "Running the same program with the same inputs, limits and configuration always produces the same results: the library consults no clock, environment, thread, file, unordered iteration or random source on any execution path except memory initialisation in the explicitly requested chaos mode. Address-dependent host values never reach guest-visible state.",
  ["programs", "schedules"], "all executions of the library's public API",
  "Nondeterminism shows only across runs or hosts; a test run sees one.",
  ["src/machine/asm/mod.rs", "src/snapshot2.rs", TR, M],
  [("random fill only in chaos mode", "src/machine/asm/mod.rs inited_memory"), ("sorted page list", "src/snapshot2.rs make_snapshot")], observe=["any guest-visible state"])
p("C16", "A pause request is honoured and leaves the machine resumable",
  "Once a pause is requested, every execution engine returns the pause error before it runs another block of instructions it jumps to (the interpreter: before another block or instruction; a fall-through into the next block need not poll), clears the request, and leaves registers, memory, program counter and cycles at an instruction boundary so that running again continues the program. A pause is never reported without a request.",
  ["schedules", "programs"], "a request at any moment, all engines",
  "The request may arrive between any two instructions; tests pause at one point in one program.",
  [M, TM, AM, X64, A64],
  [("poll in run loops", "src/machine/mod.rs, src/machine/trace.rs run_with_decoder"), ("poll in assembly", "execute_x64.S .execute/.exit_pause"), ("Pause flag", "src/machine/mod.rs Pause")], observe=["returned error", "state after pause"])
p("C17", "A snapshot restores the suspended machine completely",
  "Resuming a snapshot on a machine that has just loaded the same program, or is fresh when all pages were saved, reproduces the registers, program counter, reservation, page contents and page flags of the machine it was taken from. Resuming refuses a different machine version.",
  ["histories", "crash_points"], "a snapshot taken at any point of any program",
  "Quantifies over every suspended state; tests suspend a few programs at a few points.",
  ["src/snapshot.rs"], [("make_snapshot", "src/snapshot.rs"), ("resume", "src/snapshot.rs")], observe=["state after resume"])
p("C18", "Data-source snapshots record and restore every page and register",
  "A data-source snapshot contains each modified page with its contents and flags and each page tracked to the data source that has not been modified since, plus registers, program counter, cycles, limit and reservation; resuming restores all of them. Pages stop being tracked once overwritten, and only whole pages whose content comes from the source are tracked.",
  ["histories", "crash_points"], "a snapshot at any point, all tracked ranges and offsets",
  "Alignment of tracked ranges and later partial overwrites vary without bound; tests use a few layouts.",
  ["src/snapshot2.rs"], [("make_snapshot/resume", "src/snapshot2.rs"), ("track_pages/untrack_pages/store_bytes", "src/snapshot2.rs")], observe=["snapshot contents", "state after resume"])
p("C19", "Reset erases all guest-visible state",
  "Resetting a machine zeroes registers, program counter, cycles, memory contents and page flags, drops any reservation, installs the new cycle limit and makes the run loops discard all previously decoded instructions before executing again (a caller driving single steps does so itself, on the reset signal). Nothing computed before the reset influences execution after it.",
  ["histories"], "any state at the time of reset, all machine types and memories",
  "Any retained state matters only for particular programs run before and after; tests reset a few.",
  [M, AM, TM, TR, DEC, FL, SP],
  [("reset", "src/machine/mod.rs DefaultCoreMachine::reset, src/machine/asm/mod.rs reset"), ("reset_memory", "src/memory/*.rs, src/machine/asm/mod.rs"), ("reset signal", "run_with_decoder in each engine"), ("cache invalidation", "src/decoder.rs reset_instructions_cache, src/machine/asm/traces.rs reset")], observe=["state after reset"])
p("C20", "ELF segments load at the right place with the right permissions",
  "For every accepted ELF file each loadable segment is placed at its address with its file bytes at the in-page offset, the rest of its pages zeroed, and page permissions derived from the segment flags: unreadable or writable-and-executable segments, and segments whose file range lies outside the file, are rejected. Non-loadable segments are ignored and the entry point becomes the program counter.",
  ["inputs", "configurations"], "all ELF headers and segment tables, versions 0 to 2",
  "Arbitrary header values including wrap-around; tests load a few well-formed files.",
  ["src/elf.rs", M, MM], [("parse_elf", "src/elf.rs"), ("convert_flags", "src/elf.rs"), ("load_binary_inner", "src/machine/mod.rs"), ("fill_page_data", "src/memory/mod.rs")], observe=["memory and flags after load", "error"])
p("C21", "Frozen pages are never re-initialised",
  "Initialising a page range succeeds only if the range is page-aligned, inside memory and contains no frozen page; otherwise it reports the corresponding error. After success every page of the range carries the requested flags and holds the supplied data surrounded by zeroes.",
  ["inputs", "histories"], "all address/size/offset/flag combinations and page states",
  "Overlapping segments in arbitrary order and unaligned values; tests check a few.",
  [WX, AM, MM], [("init_pages checks", "src/memory/wxorx.rs, src/machine/asm/mod.rs"), ("fill_page_data", "src/memory/mod.rs")], observe=["Result of init_pages", "flags", "bytes"])
p("C22", "Wrapping layers forward every operation unchanged",
  "The machine and memory wrappers (default machine, trace machine, permission memory, boxed trace decoders) forward each accessor and mutator to the wrapped object with the same arguments and return its result unchanged, except for the checks they exist to add.",
  ["inputs"], "all trait methods of all wrappers",
  "A swapped or dropped forward is visible only for states where the two differ.",
  [M, TM, WX, TR], [("CoreMachine/SupportMachine impls", "src/machine/mod.rs, src/machine/trace.rs"), ("Memory impl", "src/memory/wxorx.rs"), ("decoder impls", "src/machine/asm/traces.rs")], observe=["return values and inner state"])
p("C23", "Rust and assembly agree on layouts, offsets, constants and tables",
  "Every constant, struct offset, opcode number and jump-table slot the assembly uses equals the value the Rust side uses, and every opcode has exactly one handler in each dispatch table. Opcodes without an assembly handler are exactly those dispatched to the slow path.",
  ["configurations"], "all constants, fields and opcodes",
  "A stale offset or swapped entry corrupts only particular opcodes or fields.",
  ["definitions/src/generate_asm_constants.rs", "src/machine/asm/cdefinitions_generated.h", X64, A64, DEFI, EX, "src/instructions/tagged.rs"],
  [("generated header", "src/machine/asm/cdefinitions_generated.h"), ("label table", "execute_x64.S / execute_aarch64.S ckb_vm_asm_labels"), ("thread table", "src/instructions/execute.rs ThreadFactory")], observe=["assembled offsets", "dispatch of each opcode"])
p("C24", "The initial stack follows the calling convention",
  "After initialisation the stack pointer is 16-byte aligned (version 1 and later), lies in the stack area, and points to the argument count followed by pointers to the NUL-terminated arguments and a null pointer; the returned size is the number of bytes used, and arguments that do not fit are refused.",
  ["inputs", "configurations"], "all argument lists and stack placements",
  "Argument counts and lengths are unbounded; tests use a few.",
  [M], [("initialize_stack", "src/machine/mod.rs")], observe=["SP", "stack bytes", "returned size"])
p("C25", "System calls are dispatched in order and unknown ones are errors",
  "An environment call with the exit number stops the machine with the low byte of the first argument register as exit code; any other number is offered to the registered handlers in order until one accepts it, failures are propagated, and if none accepts, the invalid-call error with that number is returned. After a handler ran, exceeding the cycle limit is an error; a breakpoint calls the debugger if there is one and is otherwise ignored.",
  ["inputs", "configurations"], "all call numbers, handler lists and handler results",
  "Handler behaviour and order are arbitrary; tests use one or two handlers.",
  [M], [("ecall/ebreak", "src/machine/mod.rs impl Machine for DefaultMachine")], observe=["exit code", "error", "order of handler calls"])
p("C26", "Store-conditional succeeds only with a live reservation",
  "A store-conditional writes memory and reports success exactly when the reservation made by the latest load-reserved is for the same address and no other store-conditional happened since; it always clears the reservation. This holds identically in every execution engine.",
  ["programs", "histories"], "all sequences of reservations and conditional stores, all addresses",
  "History-dependent; tests use short straight-line sequences.",
  [EX, X64, A64], [("reservation register", "src/instructions/execute.rs handle_lr_*/handle_sc_*"), ("assembly reservation", "execute_x64.S LR/SC handlers")], observe=["rd of SC", "memory", "reservation"])
p("C27", "A cached block is executed only at the address it was decoded from",
  "The engine executes a cached decoded block only if the current program counter equals the address the block was decoded from (with the documented 32-bit comparison in versions before 2), and otherwise decodes afresh. Decoder caches are keyed so that two different addresses never share an entry unnoticed.",
  ["programs", "histories"], "all jump histories, all addresses mapping to the same slot",
  "Requires two addresses colliding in the cache; tests rarely jump that far.",
  [TM, TR, DEC, X64, A64], [("slot and address compare", "src/machine/trace.rs, execute_x64.S .prepare_trace"), ("instruction cache key", "src/decoder.rs decode"), ("memoised tables", "src/machine/asm/traces.rs prepare_traces")], observe=["executed instruction at each pc"])
p("C28", "Assembly exit codes map to the right outcome",
  "Every reason for which the assembly engine returns is turned into the matching action or error by the host loop: decode, system call, breakpoint, continue, cycle errors, out-of-bound and permission errors carrying the faulting address or page, slow-path execution of exactly the pending instruction, and pause. An unknown reason is an error and never treated as success.",
  ["programs"], "all return reasons in run and single-step mode",
  "Some reasons are reachable only in rare states, so no test drives them.",
  [AM, DEFA, X64], [("result match", "src/machine/asm/mod.rs run_with_decoder, step"), ("exit paths", "execute_x64.S .exit_*")], observe=["returned Result"])
p("C29", "Guest programs cannot make the host panic",
  "No guest program, instruction word, operand or memory content makes the execution path of the library panic: array indices derived from guest data are bounded, arithmetic on guest values wraps or is checked, and no unwrap, slice or division on guest data can fail, with or without overflow checks compiled in.",
  ["programs", "inputs"], "all guest programs and states, all engines",
  "A panic needs one specific operand; fuzzing and tests sample.",
  [EX, COM, REG, DEC, M, AM, MM], [("5-bit register fields", "src/instructions/mod.rs"), ("wrapping arithmetic", "src/instructions/register.rs"), ("bounds checks before indexing", "src/memory/*.rs")], observe=["process abort"])
p("C30", "Machine versions keep their historical behaviour",
  "Behaviour that differs between machine versions is selected only by the machine's own version: version 0 keeps its recorded quirks, version 1 its fixes, version 2 its program-counter rules, and macro-op fusion is refused for version 0. Decoding, execution, loading and stack setup of one version are unaffected by changes meant for another.",
  ["configurations", "programs"], "all versions crossed with all ISA flag sets",
  "Replaying history needs every instruction under every version; tests run a few programs per version.",
  [DEC, EX, M, TM, AM], [("version gates", "VERSION0/VERSION1/VERSION2 comparisons across src"), ("fusion gate", "run_with_decoder")], observe=["results per version"])

p("C31", "A newly built machine starts in the initial state it was asked for",
  "Whatever way a machine is constructed, it starts with every register, the program counter and the cycle count zero, not running, without a pending reset, pause request or reservation, with memory of the requested size that reads as zero, no page flags, and no decoded block, page or cached check remembered from anywhere; instruction-set flags, version, cycle limit and memory are exactly those given. A builder keeps every component, with system calls in the order registered; all handles of one pause signal share it; every entry point runs with a decoder for the machine's own flags, version and register width; and each opcode is dispatched to its own handler.",
  ["configurations"], "all flag sets, versions, limits and memory sizes, all construction paths, all page and byte addresses",
  "Every byte, page, table slot and configuration value would have to be inspected after every construction path; tests build a few fixed machines and start from whatever they contain.",
  [M, AM, TR, TM, DEFA, FL, SP, WX, "src/lib.rs"], [("core machines", "DefaultCoreMachine::new_with_memory, AsmCoreMachine::new_with_memory and Drop"), ("memories", "FlatMemory/SparseMemory::new_with_memory"), ("builder and pause", "DefaultMachineBuilder, Pause"), ("block decoders", "src/machine/asm/traces.rs new"), ("entry points", "run in DefaultMachine, TraceMachine, AsmMachine, src/lib.rs"), ("dispatch table", "ThreadFactory::create")],
  observe=["accessors of the new machine", "buffers given to the assembly engine", "arguments of build_decoder"])

p("C32", "Every register type obeys the register arithmetic contract",
  "Any type that a machine can use for its registers computes exactly what the register trait promises: the RISC-V result of each arithmetic, division (including by zero and signed overflow), high multiplication, comparison, conditional, shift, rotate, bit-counting, carry-less multiply, byte and extension operation at its own width, and conversions from and to native integers truncate, zero-extend or sign-extend as their type says. A symbolic expression means the same value as the operation would have computed on plain integers, whether or not its operands were constants that could be folded.",
  ["inputs"], "all operands in each operation's domain, all three register types, constant and non-constant operands in every combination",
  "The operand space is 2^128 per operation, and no unit test uses the symbolic type or the 32-bit conversions.",
  [REG, "src/instructions/ast.rs"], [("integer registers", "impl Register for u32/u64"), ("symbolic registers", "impl Register for Value and its operators"), ("default comparisons", "Register::ne, ge, ge_s")],
  observe=["returned value or expression"])

p("C33", "Instruction words keep their fields and are shown as what they are",
  "Whatever opcode, registers, immediate and length an instruction word is built from, every accessor gives exactly those back, whichever of the other fields or the length is set. Every defined opcode can be viewed as a tagged instruction, of the layout its operands really have, converts back to the identical word, and is printed as its own name followed by all of its operands in assembly order, each register by its ABI name and each immediate as the signed number it stands for.",
  ["inputs"], "all opcodes, register numbers, immediates and lengths",
  "Tests build a few words and print two of them; a swapped field or a wrong view needs a particular opcode and operand to show.",
  ["src/instructions/mod.rs", "src/instructions/tagged.rs", "definitions/src/instructions.rs", "definitions/src/registers.rs"], [("constructors and accessors", "Rtype, Itype, Stype, Utype, R4type, R5type"), ("views", "TryFrom<Instruction> for TaggedInstruction"), ("text", "impl Display")],
  observe=["accessor results", "tagged view", "printed text"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
