//! The x64 assembly interpreter against the Rust interpreter, one instruction at a time.
use crate::sym::*;
use ckb_vm::ckb_vm_definitions::asm::{calculate_slot, AsmCoreMachine, FixedTrace, TRACE_SIZE};
use ckb_vm::ckb_vm_definitions::instructions as insts;
use ckb_vm::decoder::InstDecoder;
use ckb_vm::instructions::{set_instruction_length_n, Instruction};
use ckb_vm::machine::asm::traces::{decode_fixed_trace, TraceDecoder};
use ckb_vm::machine::asm::AsmMachine;
use ckb_vm::machine::{DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder};
use ckb_vm::memory::{flat::FlatMemory, wxorx::WXorXMemory};
use ckb_vm::{CoreMachine, Error, Memory, SupportMachine, ISA_A, ISA_B, ISA_IMC, ISA_MOP};

pub const MEM: usize = 512 * 1024;
pub type RMem = WXorXMemory<FlatMemory<u64>>;
pub type RMac = DefaultMachine<DefaultCoreMachine<u64, RMem>>;

/// delivers one given instruction, then stops the run
pub struct OneInst {
    pub inst: Instruction,
    pub left: u32,
}
impl InstDecoder for OneInst {
    fn decode<M: Memory>(&mut self, _m: &mut M, _pc: u64) -> Result<Instruction, Error> {
        if self.left == 0 {
            return Err(Error::Yield);
        }
        self.left -= 1;
        Ok(self.inst)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
/// the same for the assembly run loop: one trace with one instruction
pub struct OneTrace {
    pub d: OneInst,
    pub t: [FixedTrace; 1],
}
impl InstDecoder for OneTrace {
    fn decode<M: Memory>(&mut self, m: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.d.decode(m, pc)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
impl TraceDecoder for OneTrace {
    fn fixed_traces(&self) -> *const FixedTrace {
        self.t.as_ptr()
    }
    fn fixed_trace_size(&self) -> u64 {
        1
    }
    fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
        let (t, _) = decode_fixed_trace(&mut self.d, m, Some(1))?;
        self.t[0] = t;
        Ok(())
    }
    fn reset(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

pub fn pack_r(op: u16, len: u8, b0: u64, b1: u64, b2: u64, b3: u64, b4: u64) -> u64 {
    let i = (op as u64 >> 8 << 16) | (op as u64 & 0xff) | (b0 << 8) | (b1 << 32) | (b2 << 40) | (b3 << 48) | (b4 << 56);
    set_instruction_length_n(i, len)
}
pub fn sext(v: u64, bits: u32) -> u64 {
    (((v << (64 - bits)) as i64) >> (64 - bits)) as u64
}

pub fn one_cycle(_: Instruction) -> u64 {
    1
}
pub fn rust_machine(version: u32, regs: &[u64; 32], pc: u64) -> RMac {
    let isa = if version == 0 { ISA_IMC | ISA_A | ISA_B } else { ISA_IMC | ISA_A | ISA_B | ISA_MOP };
    let core = DefaultCoreMachine::<u64, RMem>::new_with_memory(isa, version, 1, WXorXMemory::new(FlatMemory::new_with_memory(MEM)));
    let mut m = DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(one_cycle)).build();
    for i in 0..32 {
        m.set_register(i, regs[i]);
    }
    m.update_pc(pc);
    m.commit_pc();
    m
}
pub fn asm_machine(version: u32, regs: &[u64; 32], pc: u64) -> AsmMachine {
    let isa = if version == 0 { ISA_IMC | ISA_A | ISA_B } else { ISA_IMC | ISA_A | ISA_B | ISA_MOP };
    let core = AsmCoreMachine::new_with_memory(isa, version, 1, MEM);
    let mut m = AsmMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(one_cycle)).build());
    for i in 0..32 {
        m.machine.set_register(i, regs[i]);
    }
    m.machine.update_pc(pc);
    m.machine.commit_pc();
    m
}

pub const ALU_R: &[u16] = &[
    insts::OP_ADD, insts::OP_ADDW, insts::OP_AND, insts::OP_DIV, insts::OP_DIVU, insts::OP_DIVUW, insts::OP_DIVW, insts::OP_MUL,
    insts::OP_MULH, insts::OP_MULHSU, insts::OP_MULHU, insts::OP_MULW, insts::OP_OR, insts::OP_REM, insts::OP_REMU, insts::OP_REMUW,
    insts::OP_REMW, insts::OP_SLL, insts::OP_SLLW, insts::OP_SLT, insts::OP_SLTU, insts::OP_SRA, insts::OP_SRAW, insts::OP_SRL,
    insts::OP_SRLW, insts::OP_SUB, insts::OP_SUBW, insts::OP_XOR,
    insts::OP_ADDUW, insts::OP_ANDN, insts::OP_BCLR, insts::OP_BEXT, insts::OP_BINV, insts::OP_BSET, insts::OP_CLMUL, insts::OP_CLMULH,
    insts::OP_CLMULR, insts::OP_CLZ, insts::OP_CLZW, insts::OP_CPOP, insts::OP_CPOPW, insts::OP_CTZ, insts::OP_CTZW, insts::OP_MAX,
    insts::OP_MAXU, insts::OP_MIN, insts::OP_MINU, insts::OP_ORCB, insts::OP_ORN, insts::OP_REV8, insts::OP_ROL, insts::OP_ROLW,
    insts::OP_ROR, insts::OP_RORW, insts::OP_SEXTB, insts::OP_SEXTH, insts::OP_SH1ADD, insts::OP_SH1ADDUW, insts::OP_SH2ADD,
    insts::OP_SH2ADDUW, insts::OP_SH3ADD, insts::OP_SH3ADDUW, insts::OP_XNOR, insts::OP_ZEXTH,
];

#[no_mangle]
pub extern "C" fn h_asm_alu_r() {
    let op = ALU_R[choice(ALU_R.len())];
    let (rd, rs1, rs2) = (reg(), reg(), reg());
    let inst = pack_r(op, 4, rd, rs1, rs2, 0, 0);
    asm_vs_rust(inst, 2, true);
}


pub const ALU_I12: &[u16] = &[insts::OP_ADDI, insts::OP_ADDIW, insts::OP_ANDI, insts::OP_ORI, insts::OP_XORI, insts::OP_SLTI, insts::OP_SLTIU];
pub const ALU_SH6: &[u16] = &[
    insts::OP_SLLI, insts::OP_SRLI, insts::OP_SRAI, insts::OP_RORI, insts::OP_BCLRI, insts::OP_BEXTI, insts::OP_BINVI, insts::OP_BSETI,
    insts::OP_SLLIUW,
];
pub const ALU_SH5: &[u16] = &[insts::OP_SLLIW, insts::OP_SRLIW, insts::OP_SRAIW, insts::OP_RORIW];
pub const ALU_U: &[u16] = &[insts::OP_LUI, insts::OP_AUIPC, insts::OP_CUSTOM_LOAD_UIMM, insts::OP_CUSTOM_LOAD_IMM];
pub const BRANCH: &[u16] = &[insts::OP_BEQ, insts::OP_BNE, insts::OP_BLT, insts::OP_BGE, insts::OP_BLTU, insts::OP_BGEU];
pub const WIDE: &[u16] = &[insts::OP_WIDE_MUL, insts::OP_WIDE_MULU, insts::OP_WIDE_MULSU, insts::OP_WIDE_DIV, insts::OP_WIDE_DIVU];

pub fn opb(op: u16, len: u8) -> u64 {
    set_instruction_length_n((op as u64 >> 8 << 16) | (op as u64 & 0xff), len)
}
pub fn pack_i(op: u16, len: u8, rd: u64, rs1: u64, imm: u64) -> u64 {
    opb(op, len) | rd << 8 | rs1 << 32 | imm << 40
}
pub fn pack_s(op: u16, len: u8, rs1: u64, rs2: u64, imm: u64) -> u64 {
    opb(op, len) | rs2 << 8 | rs1 << 32 | imm << 40
}
pub fn pack_u(op: u16, len: u8, rd: u64, imm: u64) -> u64 {
    opb(op, len) | rd << 8 | imm << 32
}
fn len24() -> u8 {
    ((u8v() & 1) + 1) * 2
}

#[no_mangle]
pub extern "C" fn h_asm_alu_i() {
    let (rd, rs1, v) = (reg(), reg(), u64v());
    let inst = match choice(4) {
        0 => pack_i(ALU_I12[choice(ALU_I12.len())], len24(), rd, rs1, sext(v, 12)),
        1 => pack_i(ALU_SH6[choice(ALU_SH6.len())], len24(), rd, rs1, v & 63),
        2 => pack_i(ALU_SH5[choice(ALU_SH5.len())], len24(), rd, rs1, v & 31),
        _ => {
            let op = ALU_U[choice(ALU_U.len())];
            pack_u(op, if op == insts::OP_AUIPC { 4 } else { len24() }, rd, v & 0xffff_ffff)
        }
    };
    asm_vs_rust(inst, 2, false);
}

/// operands of the fused operations as the decoder may produce them
#[no_mangle]
pub extern "C" fn h_asm_mop() {
    let (a, b, c, d, e) = (reg(), reg(), reg(), reg(), reg());
    let k = choice(12);
    let inst = match k {
        0..=4 => {
            assume(a != b && a != c && a != d);
            pack_r(WIDE[k], 8, a, b, c, d, 0)
        }
        5 => {
            assume(a != b && a != c && b != c && a != 0 && b != 0 && c != 0);
            pack_r(insts::OP_ADC, 14, a, b, c, 0, 0)
        }
        6 => {
            assume(a != b && c != a && c != b && d != a && d != b && c != d && a != 0 && b != 0 && c != 0 && d != 0);
            pack_r(insts::OP_SBB, 18, a, b, c, d, 0)
        }
        7 => {
            assume(a != b && a != 0);
            pack_r(insts::OP_ADCS, 6, a, b, c, d, 0)
        }
        8 => {
            assume(a != b && a != c);
            pack_r(insts::OP_SBBS, 8, a, b, c, d, 0)
        }
        9 => {
            assume(a != b && a != e && c != e && a != 0 && c != 0);
            pack_r(insts::OP_ADD3A, 12, a, b, c, d, e)
        }
        10 => {
            assume(a != b && a != e && b != e && a != 0 && b != 0);
            pack_r(insts::OP_ADD3B, 10, a, b, c, d, e)
        }
        _ => {
            assume(a != b && a != e && d != e && a != 0 && d != 0);
            pack_r(insts::OP_ADD3C, 10, a, b, c, d, e)
        }
    };
    asm_vs_rust(inst, 2, false);
}

#[no_mangle]
pub extern "C" fn h_asm_ctl() {
    let v = u64v();
    let (rd, rs1) = (reg(), reg());
    let (inst, ver) = match choice(8) {
        0 => (pack_u(insts::OP_JAL, len24(), rd, sext(v, 21) & 0xffff_fffe), 2),
        1 => (pack_i(insts::OP_JALR_VERSION1, len24(), rd, rs1, sext(v, 12)), 2),
        2 => (pack_i(insts::OP_JALR_VERSION0, len24(), rd, rs1, sext(v, 12)), 0),
        3 => (pack_s(BRANCH[choice(6)], len24(), rd, rs1, sext(v, 13) & !1), 2),
        4 => (pack_u(insts::OP_FAR_JUMP_REL, 8, 1, v & 0xffff_ffff), 2),
        5 => (pack_u(insts::OP_FAR_JUMP_ABS, 6, 1, v & 0xffff_ffff), 2),
        6 => (opb([insts::OP_FENCE, insts::OP_FENCEI, insts::OP_EBREAK][choice(3)], 4), 2),
        _ => (opb(insts::OP_ECALL, 4), 2),
    };
    asm_vs_rust(inst, ver, false);
}

fn asm_vs_rust(inst: u64, version: u32, all: bool) {
    let r = regs(1);
    let pc = u64v();
    assume(pc & 1 == 0 && pc < MEM as u64 - 32);
    let mut a = asm_machine(version, &r, pc);
    let mut m = rust_machine(version, &r, pc);
    let rm = m.run_with_decoder(&mut OneInst { inst, left: 1 });
    // a jump to itself would run again and again
    assume(*m.pc() != pc || m.running() == false);
    // before version 2 the assembly interpreter deliberately keeps looking at 32 bits of pc only
    if version < 2 {
        assume(*m.pc() >> 32 == 0);
    }
    let mut d = OneTrace { d: OneInst { inst, left: 1 }, t: [FixedTrace::default()] };
    let ra = a.run_with_decoder(&mut d);
    let (ca, cm) = (rcode(&ra), rcode(&rm));
    chk!(1601, ca == cm, "assembly and Rust interpreters end the same way");
    chk!(1602, *a.machine.pc() == *m.pc(), "same pc");
    if all {
        let mut same = true;
        for i in 0..32 {
            same &= a.machine.registers()[i] == m.registers()[i];
            observe(m.registers()[i]);
        }
        chk!(1603, same, "same registers");
    } else {
        let i = reg() as usize;
        observe(m.registers()[i]);
        chk!(1607, a.machine.registers()[i] == m.registers()[i], "same registers (any)");
    }
    chk!(1604, m.registers()[0] == 0, "x0 is zero");
    chk!(1605, a.machine.running() == m.running() && a.machine.exit_code() == m.exit_code(), "same exit state");
    if rm.is_ok() {
        chk!(1606, matches!((&ra, &rm), (Ok(x), Ok(y)) if x == y), "same exit code");
    }
    reach(1);
}

#[allow(dead_code)]
fn _unused() -> usize {
    calculate_slot(0) + TRACE_SIZE
}
