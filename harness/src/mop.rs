//! Macro-op fusion: what the fusing decoder returns does the same as the instructions it swallowed.
use crate::sym::*;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::instructions::{execute, instruction_length, is_slowpath_instruction};
use ckb_vm::machine::{DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder};
use ckb_vm::memory::{flat::FlatMemory, Memory};
use ckb_vm::{CoreMachine, SupportMachine, ISA_B, ISA_IMC, ISA_MOP};

const MEM: usize = 8192;
type Mac = DefaultMachine<DefaultCoreMachine<u64, FlatMemory<u64>>>;

fn mac(version: u32, isa: u8, r: &[u64; 32], pc: u64, code: &[u8]) -> Mac {
    let mut mem = FlatMemory::<u64>::new_with_memory(MEM);
    mem[pc as usize..pc as usize + code.len()].copy_from_slice(code);
    let core = DefaultCoreMachine::<u64, FlatMemory<u64>>::new_with_memory(isa, version, u64::MAX, mem);
    let mut m = DefaultMachineBuilder::new(core).build();
    for i in 0..32 {
        m.set_register(i, r[i]);
    }
    m.update_pc(pc);
    m.commit_pc();
    m
}

/// instruction words by kind: (bits that are free, fixed bits, length)
const R: u32 = 0x00f7_8780; // rd, rs1, rs2 among x0 to x15
const ADD: (u32, u32, u8) = (R, 0x33, 4);
const CADD: (u32, u32, u8) = (0x07bc, 0x9002, 2);
const CMV: (u32, u32, u8) = (0x07bc, 0x8002, 2);
const SLTU: (u32, u32, u8) = (R, 0x3033, 4);
const SUB: (u32, u32, u8) = (R, 0x4000_0033, 4);
const CSUB: (u32, u32, u8) = (0x039c, 0x8c01, 2);
const OR: (u32, u32, u8) = (R, 0x6033, 4);
const COR: (u32, u32, u8) = (0x039c, 0x8c41, 2);
const ANY: (u32, u32, u8) = (u32::MAX, 0, 4);
const ANY32: (u32, u32, u8) = (!3, 3, 4);
const ANY16: (u32, u32, u8) = (0xffff, 0, 2);
/// words that cannot be anything but a 32-bit ALU-register instruction
const OP32: (u32, u32, u8) = (0xffff_ff80, 0x33, 4);

fn run(kinds: &[(u32, u32, u8)], id: u32) {
    let version = [2u32, 1][choice(2)];
    let r = regs(1);
    let mut pc = u64v() & 0x1ffe;
    assume(pc < MEM as u64 - 32);
    if id != 2 {
        assume(pc & 0xfff < 0xfe0);
    }
    if id == 2 {
        // also at the very end of memory
        if choice(2) == 1 {
            pc = MEM as u64 - 6;
        }
    }
    let mut code = [0u8; 24];
    let mut n = 0usize;
    for k in kinds {
        let w = (u32v() & k.0) | k.1;
        if k.2 == 2 {
            if k.0 == 0xffff {
                assume(w & 3 != 3);
            }
            code[n..n + 2].copy_from_slice(&(w as u16).to_le_bytes());
            n += 2;
        } else {
            code[n..n + 4].copy_from_slice(&w.to_le_bytes());
            n += 4;
        }
    }
    let room = (MEM as u64 - pc) as usize;
    let len = if room < 24 { 6 } else { 24 };
    let code = &code[..len];
    let mut a = mac(version, ISA_IMC | ISA_B | ISA_MOP, &r, pc, code);
    let mut da: Decoder = build_decoder::<u64>(ISA_IMC | ISA_B | ISA_MOP, version);
    let mut db: Decoder = build_decoder::<u64>(ISA_IMC | ISA_B, version);
    let mut b = mac(version, ISA_IMC | ISA_B, &r, pc, code);
    let fused = da.decode(a.memory_mut(), pc);
    let raw = db.decode(b.memory_mut(), pc);
    chk!(601, rcode(&fused) == rcode(&raw), "fusion refuses exactly what plain decoding refuses");
    let (fused, raw) = match (fused, raw) {
        (Ok(f), Ok(r)) => (f, r),
        _ => {
            reach(3);
            return;
        }
    };
    if fused == raw {
        reach(2);
        return;
    }
    reach(1);
    chk!(602, !is_slowpath_instruction(fused), "a fused operation is an ordinary one");
    let total = instruction_length(fused) as u64;
    // the swallowed instructions one by one
    let mut used = 0u64;
    let mut steps = 0;
    let mut words = [0u64; 5];
    while used < total && steps < 5 {
        let i = match db.decode(b.memory_mut(), pc + used) {
            Ok(i) => i,
            Err(_) => {
                chk!(603, false, "only valid instructions are swallowed");
                return;
            }
        };
        words[steps] = i;
        used += instruction_length(i) as u64;
        chk!(604, execute(i, &mut b).is_ok(), "the swallowed instructions execute");
        steps += 1;
        if used < total {
            chk!(605, *b.pc() == pc + used, "control does not leave a fused sequence early");
        }
    }
    chk!(606, used == total, "a fused operation covers whole instructions");
    chk!(607, execute(fused, &mut a).is_ok(), "the fused operation executes");
    let (pa, pb) = (*a.pc(), *b.pc());
    // every register the instructions write, and any other
    let w = choice(steps + 1);
    let i = if w < steps {
        (words[w] >> 8 & 31) as usize
    } else {
        let i = reg() as usize;
        for k in 0..steps {
            assume((words[k] >> 8 & 31) as usize != i);
        }
        i
    };
    observe(pa);
    observe(b.registers()[i]);
    observe(a.registers()[i]);
    let same_pc = pa == pb || (pa >= 4 << 20 && pb >= 4 << 20);
    let same_reg = a.registers()[i] == b.registers()[i];
    if version == 2 {
        if steps == 5 && (words[1] >> 40 & 31) != (words[0] >> 40 & 31) {
            chk!(610, same_reg, "borrow chain whose first comparison uses another register");
        } else {
            chk!(608, same_pc, "same next address");
            chk!(609, same_reg, "same registers");
        }
    } else if steps == 2 && ckb_vm::instructions::extract_opcode(words[1]) == ckb_vm::ckb_vm_definitions::instructions::OP_JALR_VERSION1 {
        // version 1 is known to drop the write of the intermediate register of a far jump: see version 2
        reach(4);
    } else if steps == 5 && (words[1] >> 40 & 31) != (words[0] >> 40 & 31) {
        chk!(613, same_reg, "borrow chain whose first comparison uses another register (version 1)");
    } else {
        chk!(611, same_pc, "same next address (version 1)");
        chk!(612, same_reg, "same registers (version 1)");
    }
}

/// any two instructions
#[no_mangle]
pub extern "C" fn h_mop2() {
    let (a, b) = (choice(2), choice(2));
    run(&[[ANY32, ANY16][a], [ANY32, ANY16][b], ADD], 2);
}
/// three-instruction sums
#[no_mangle]
pub extern "C" fn h_mop3() {
    let c = choice(4);
    if c == 3 {
        run(&[ADD, SLTU, OP32], 3);
    } else {
        run(&[[ADD, CADD, CMV][choice(3)], SLTU, [ADD, CADD, CMV][c]], 3);
    }
}
/// add-with-carry chains
#[no_mangle]
pub extern "C" fn h_mop_adc() {
    match choice(4) {
        0 => run(&[[ADD, CADD][choice(2)], SLTU, [ADD, CADD][choice(2)], SLTU, OR], 5),
        1 => run(&[[ADD, CADD][choice(2)], SLTU, [ADD, CADD][choice(2)], SLTU, COR], 5),
        2 => run(&[ADD, SLTU, ADD, OP32, OR], 5),
        _ => run(&[ADD, SLTU, ADD, SLTU, OP32], 5),
    }
}
/// subtract-with-borrow chains
#[no_mangle]
pub extern "C" fn h_mop_sbb() {
    match choice(4) {
        0 => run(&[[SUB, CSUB][choice(2)], SLTU, [SUB, CSUB][choice(2)], SLTU, OR], 5),
        1 => run(&[[SUB, CSUB][choice(2)], SLTU, [SUB, CSUB][choice(2)], SLTU, COR], 5),
        2 => run(&[SUB, SLTU, SUB, OP32, OR], 5),
        _ => run(&[SUB, SLTU, SUB, SLTU, OP32], 5),
    }
}
