// Small helpers shared by the demonstrations: raw instruction words in, machine state out.
#![allow(dead_code, unused_imports)]
pub use ckb_vm::{
    elf::{LoadingAction, ProgramMetadata},
    machine::{VERSION0, VERSION1, VERSION2},
    memory::{FLAG_DIRTY, FLAG_EXECUTABLE, FLAG_FREEZED},
    Bytes, CoreMachine, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Error, FlatMemory,
    Instruction, Machine, Memory, SparseMemory, SupportMachine, TraceMachine, WXorXMemory, ISA_A, ISA_B, ISA_IMC,
    ISA_MOP,
};
pub use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};

pub const BASE: u64 = 0x10000;
pub type Core = DefaultCoreMachine<u64, WXorXMemory<SparseMemory<u64>>>;
pub type FlatCore = DefaultCoreMachine<u64, WXorXMemory<FlatMemory<u64>>>;
pub const ALL: u8 = ISA_IMC | ISA_A | ISA_B;

pub fn bytes(code: &[u32]) -> Bytes {
    let mut v = vec![];
    for w in code {
        v.extend_from_slice(&w.to_le_bytes());
    }
    Bytes::from(v)
}
pub fn meta(len: usize) -> ProgramMetadata {
    ProgramMetadata {
        actions: vec![LoadingAction {
            addr: BASE,
            size: ((len + 4095) / 4096 * 4096) as u64,
            flags: FLAG_EXECUTABLE | FLAG_FREEZED,
            source: 0..len as u64,
            offset_from_addr: 0,
        }],
        entry: BASE,
    }
}
pub fn r(f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn i(imm: i32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    (imm as u32) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn s(imm: i32, rs2: u32, rs1: u32, f3: u32, op: u32) -> u32 {
    let u = imm as u32;
    (u >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (u & 31) << 7 | op
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 {
    i(imm, rs1, 0, rd, 0x13)
}
pub const ECALL: u32 = 0x73;
// exit(a0): li a7, 93; ecall
pub fn exit() -> Vec<u32> {
    vec![addi(17, 0, 93), ECALL]
}

/// runs `code` (an exit sequence is appended) on the plain interpreter with the given start registers
pub fn interp(isa: u8, version: u32, code: &[u32], regs: &[(usize, u64)]) -> (Result<i8, Error>, [u64; 32], u64) {
    let mut c = code.to_vec();
    c.extend(exit());
    let b = bytes(&c);
    let core = Core::new(isa, version, 1_000_000);
    let mut m = DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(|_| 1)).build();
    m.load_program_with_metadata(&b, &meta(b.len()), &[]).unwrap();
    for (k, v) in regs {
        m.set_register(*k, *v);
    }
    let res = m.run();
    let mut o = [0u64; 32];
    o.copy_from_slice(m.registers());
    (res, o, m.cycles())
}
pub fn traced(isa: u8, version: u32, code: &[u32], regs: &[(usize, u64)]) -> (Result<i8, Error>, [u64; 32], u64) {
    let mut c = code.to_vec();
    c.extend(exit());
    let b = bytes(&c);
    let core = FlatCore::new(isa, version, 1_000_000);
    let mut m = TraceMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(|_| 1)).build());
    m.load_program_with_metadata(&b, &meta(b.len()), &[]).unwrap();
    for (k, v) in regs {
        m.set_register(*k, *v);
    }
    let res = m.run();
    let mut o = [0u64; 32];
    o.copy_from_slice(m.registers());
    (res, o, m.machine.cycles())
}
pub fn asm(isa: u8, version: u32, code: &[u32], regs: &[(usize, u64)]) -> (Result<i8, Error>, [u64; 32], u64) {
    let mut c = code.to_vec();
    c.extend(exit());
    let b = bytes(&c);
    let core = AsmCoreMachine::new(isa, version, 1_000_000);
    let mut m = AsmMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(|_| 1)).build());
    m.load_program_with_metadata(&b, &meta(b.len()), &[]).unwrap();
    for (k, v) in regs {
        m.machine.set_register(*k, *v);
    }
    let res = m.run();
    let mut o = [0u64; 32];
    o.copy_from_slice(m.machine.registers());
    (res, o, m.machine.cycles())
}
pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("{}: got {:x?}, want {:x?}", what, got, want);
        std::process::exit(1);
    }
}
