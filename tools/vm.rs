//! helpers of the demonstrations
#![allow(dead_code)]
pub use ckb_vm::ckb_vm_definitions::asm::*;
pub use ckb_vm::ckb_vm_definitions::instructions as insts;
pub use ckb_vm::decoder::*;
pub use ckb_vm::instructions::Instruction;
pub use ckb_vm::machine::asm::traces::*;
pub use ckb_vm::machine::asm::*;
pub use ckb_vm::machine::*;
pub use ckb_vm::memory::{flat::FlatMemory, sparse::SparseMemory, wxorx::WXorXMemory, *};
pub use ckb_vm::*;

pub const ALL: u8 = ISA_IMC | ISA_A | ISA_B | ISA_MOP;
pub const MEM: usize = 1024 * 1024;
pub type Rust = DefaultMachine<DefaultCoreMachine<u64, WXorXMemory<FlatMemory<u64>>>>;
pub fn one(_: Instruction) -> u64 {
    1
}
pub fn rust_vm(isa: u8, version: u32, cycles: u64) -> Rust {
    let core = DefaultCoreMachine::new_with_memory(isa, version, cycles, WXorXMemory::new(FlatMemory::new_with_memory(MEM)));
    DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(one)).build()
}
pub fn asm_vm(isa: u8, version: u32, cycles: u64) -> AsmMachine {
    let core = AsmCoreMachine::new_with_memory(isa, version, cycles, MEM);
    AsmMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(one)).build())
}
/// code at an address, executable
pub fn put<M: Memory>(m: &mut M, at: u64, code: &[u8]) {
    let page = at & !0xfff;
    let len = ((at - page) + code.len() as u64 + 0xfff) & !0xfff;
    let mut v = vec![0u8; len as usize];
    v[(at - page) as usize..][..code.len()].copy_from_slice(code);
    m.init_pages(page, len, FLAG_EXECUTABLE | FLAG_FREEZED, Some(v.into()), 0).unwrap();
}
pub fn words(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn halves(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn r(op: u32, f3: u32, f7: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    op | rd << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | f7 << 25
}
pub fn i(op: u32, f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    op | rd << 7 | f3 << 12 | rs1 << 15 | (imm as u32) << 20
}
pub fn s(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let u = imm as u32;
    0x23 | (u & 31) << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | (u >> 5 & 127) << 25
}
pub fn li(rd: u32, v: i32) -> u32 {
    i(0x13, 0, rd, 0, v)
}
pub const ECALL: u32 = 0x73;
/// n interpreter steps of the portable machine from pc
pub fn steps(m: &mut Rust, pc: u64, n: usize) -> Result<(), Error> {
    m.update_pc(pc);
    m.commit_pc();
    let mut d = build_decoder::<u64>(m.isa(), m.version());
    for _ in 0..n {
        m.step(&mut d)?;
    }
    Ok(())
}
