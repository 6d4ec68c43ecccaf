CLAIMS["C04"] = ("lifting of the x86-64 handlers (.S, preprocessed) to value graphs; equivalence with the interpreter's reference step (normal forms, decision diagrams, random interpretation for residue)", "other",
  "Every handler of the dispatch table, for all operand values, addresses, page flags and engine-cache states satisfying the engine invariant (itself an obligation). Residue is decided by random interpretation (counted). Trusts the x86 semantics table in sa/x64.py and the reference; AMO/SC and version-0 address reporting differences are known findings.")
CLAIMS["C03"] = ("value graphs of every handler (Rust MIR and lifted x86-64 and AArch64 assembly); regs'[0] must normalise to the constant 0", "proof",
  "All 160+ opcode handlers of the interpreter for every operand, destination and outcome, and every x86-64 and AArch64 assembly handler, including the states in which it hands over.")
MEM = "value graphs of every memory call of FlatMemory, SparseMemory, WXorXMemory and the assembly engine's memory (MIR) and of the assembly handlers' access paths, compared with the reference byte array at symbolic probe points (normal forms, decision diagrams, random interpretation)"
CLAIMS["C07"] = (MEM, "other", "All addresses and sizes symbolic; loops over pages unrolled to 5 iterations (ranges of up to about 4 pages). Residue decided by random interpretation, counted in the evidence.")
CLAIMS["C08"] = (MEM, "other", "As C07; both the Rust permission memory and the assembly engine, with the engine's page caches as an inductive invariant.")
CLAIMS["C09"] = (MEM, "other", "As C08, for the dirty mark.")
CLAIMS["C10"] = (MEM, "other", "As C07, for contents; sparse memory under its page-table invariant (slots form a partial injection), which is itself an obligation.")
CLAIMS["C11"] = (MEM, "other", "As C07, for the assembly engine's lazily zeroed frames; the engine-cache invariant is an obligation of every handler and host call.")
CLAIMS["C21"] = (MEM, "other", "init_pages of the permission memory and of the assembly engine's memory.")
LOOP = "value graphs of the host loops (DefaultMachine::run_with_decoder/step/ecall/ebreak, AsmMachine::run/step, TraceMachine::run; Rust MIR, handlers and engine entry as observed opaque events) compared one iteration at a time with a reference loop"
CLAIMS["C12"] = (LOOP + "; assembly handlers' cycle accounting from the lifted .S", "other", "For every machine state, decode result, cost, cycle count and limit: one loop iteration from an arbitrary state (inductive in the iteration). Residue by random interpretation, counted.")
CLAIMS["C14"] = ("value graph of estimate_cycles over the full 64-bit instruction, compared as decision diagram with the documented cost table", "proof", "Every opcode and every instruction word; the table of the specification is sa/checks/c14.py.")
CLAIMS["C16"] = (LOOP + "; assembly handlers' pause checks from the lifted .S", "other", "As C12, for pause requests that arrive at any loop head: honoured before any effect, registers, pc, cycles and memory as a resumable machine needs them.")
CLAIMS["C25"] = (LOOP, "other", "Environment calls with 0 to 3 registered handlers answering in any combination; exit system call; ebreak and debugger.")
CLAIMS["C26"] = ("value graphs of the LR/SC handlers (MIR and lifted assembly) against the architectural definition; frame condition on the reservation for every other handler", "other", "All opcodes of both engines, all operand values and reservations; residue by random interpretation, counted.")
CLAIMS["C28"] = (LOOP, "other", "Every return code 0..255 of the assembly entry, for AsmMachine::run and step.")
CLAIMS["C30"] = ("value graphs with a symbolic machine version: decoders, instruction handlers (interpreter and lifted x86-64 and AArch64 assembly), fusion gates, run loops, stack setup and ELF loading, each against a reference that is a function of the version", "other", "Versions 0, 1, 2 and any later one, all ISA flag sets, all operands; whether a sequence may fuse is a table per version. Residue by random interpretation, counted.")
CLAIMS["C29"] = ("panic conditions in the value graphs of the MIR compiled with overflow checks: every assertion and diverging call met by the runs of the other analyses must be unsatisfiable; inventory of all panicking constructs", "other", "Every run of the analyses of decoding, execution, memory, traces, ELF loading, stack setup and snapshots, for all inputs of those runs. Constructs outside these runs are listed in the evidence and left open. Decoding is assumed to succeed only below 2^62 (C01).")
CLAIMS["C13"] = ("value graphs of decode_fixed_trace, the three block decoders' prepare_traces, the continuation-block builder and TraceMachine's block building (Rust MIR over an opaque instruction decoder) against a reference block; assembly block entry from the lifted .S", "other", "All decode results, costs and limits, blocks of up to 16 instructions; continuation blocks of 1, 2, 3 and 5 instructions; residue by random interpretation, counted.")
CLAIMS["C19"] = ("value graphs of every reset function (machines, memories, block decoders, instruction cache) and of the run loops' reset branch, against the reset state at symbolic probes", "other", "All prior states; run loops one iteration from an arbitrary state with a reset request. Residue by random interpretation, counted.")
CLAIMS["C27"] = ("value graphs of the block lookups and caches (TraceMachine, block decoders, instruction cache, assembly lookup) with symbolic tables under the cache invariant, which is itself an obligation", "other", "Any table and cache contents that satisfy the invariant, any address; residue by random interpretation, counted.")
CLAIMS["C20"] = ("value graphs of parse_elf and of the whole of load_elf (Rust MIR; goblin's results arbitrary) against the reference list of page initialisations, flags, file bytes, errors and entry point", "other", "Files of any length and content with up to 2 program headers (3 when thorough) of arbitrary fields, three versions, both core machines. Residue by random interpretation, counted. A wrapping segment size is a known finding.")
CLAIMS["C24"] = ("value graph of initialize_stack (Rust MIR; memory as a functional byte array) against the calling convention at a symbolic probe byte and register", "other", "0 to 3 arguments (4 when thorough) of symbolic length and content, any stack area, three versions, 64-bit registers. Residue by random interpretation, counted.")
CLAIMS["C22"] = ("value graph of every wrapper method (Rust MIR) over an opaque wrapped object; calls on it are events with fresh results; set/get/frame of the core machines' accessors", "other", "Every trait method of the default machine, trace machine, permission memory and block decoders, every argument; most obligations close by normal form, residue (checked operations) by random interpretation, counted.")
CLAIMS["C23"] = ("header, preprocessed jump tables of both engines, rustc's layouts and the definitions crate's constants compared entry by entry; constant propagation of the table reader for every opcode", "proof", "Every #define, every field offset, every opcode number and every slot of both engines' jump tables (x86-64 and AArch64).")
CLAIMS["C17"] = ("value graphs of make_snapshot and resume (Rust MIR) over functional arrays of memory bytes and page flags, compared with the saved/restored state page by page and byte by byte", "other", "Any registers, flags and contents; memories of up to 2 pages for taking (3 when thorough), up to 3 saved pages (4) for resuming into a memory of any size. Residue by random interpretation, counted.")
CLAIMS["C18"] = ("value graphs of every Snapshot2Context operation (Rust MIR) over functional memory, flags and tracking table, with an uninterpreted data source, compared at a symbolic page and byte", "other", "Any tracking table, addresses, offsets and answers of the data source; ranges of up to 2 pages, snapshots of up to 3 pages (4 when thorough) and up to 2 entries per list. Residue by random interpretation, counted.")
CLAIMS["C15"] = ("effect analysis over the MIR of every function and over both assembly files: callee inventory, dominance of random generators by the chaos-mode branch, hash-order taint, host-address taint (interprocedural), uninitialised allocations", "other", "Every function of both crates and every line of the assembly; implicit flows from host addresses are not followed; external crates (goblin, serde, bytes, ...) and the embedder's callbacks are taken to be deterministic.")
CLAIMS["C05"] = ("lifting of the AArch64 handlers (.S, preprocessed) to value graphs; equivalence with the reference step (normal forms, decision diagrams, random interpretation for residue); assembler for syntax and ranges", "other",
  "Every handler of the AArch64 dispatch table and every block transition, for all operand values, addresses, page flags and engine-cache states satisfying the engine invariant (itself an obligation). The code is never executed: the AArch64 semantics table in sa/a64.py and the reference are trusted. AMO/SC and version-0 address reporting differences are known findings.")
CLAIMS["C31"] = ("symbolic evaluation of every constructor and entry point from MIR (allocations, boxes, shared cells, generic defaults modelled); what is built is observed through the accessors of its own type and compared with the initial state", "other",
  "All configuration values symbolic; page, byte address and table slot symbolic. The refusal condition of memory sizes and the bytes of fresh memories are decided by random interpretation (counted), the rest by identical normal form. Trusts the models of alloc, Box, Arc, atomics, Vec, HashMap.")
CLAIMS["C32"] = ("value graphs of every Register method of u32, u64 and the symbolic expression type (MIR), expressions interpreted by the meaning of their nodes, compared with the contract by normal form, decision diagram, random interpretation for residue", "other",
  "Every method of the trait, all operands in its domain; symbolic operands as constants and as registers in every combination. 13 comparisons (multiplication, division, rotates with arbitrary amounts) close by random interpretation only. Trusts the meaning given to expression nodes.")
CLAIMS["C33"] = ("value graphs of every instruction-word constructor, accessor, tagging conversion and Display implementation (MIR; format templates interpreted), compared with the fields that went in", "other",
  "All opcodes, register fields (5 bits when shown, 8 bits in words), immediates in the word's range and lengths; shown registers enumerated. Trusts the model of core::fmt templates.")
