//! One instruction of the Rust interpreter against the ISA.
use crate::spec::{self, Spec};
use crate::sym::*;
use ckb_vm::decoder::build_decoder;
use ckb_vm::machine::{DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder};
use ckb_vm::memory::{flat::FlatMemory, wxorx::WXorXMemory, Memory};
use ckb_vm::{CoreMachine, SupportMachine, ISA_A, ISA_B, ISA_IMC};

pub const MEM: usize = 64 * 1024;
pub type Mem = WXorXMemory<FlatMemory<u64>>;
pub type Mac = DefaultMachine<DefaultCoreMachine<u64, Mem>>;

/// machine and specification in the same arbitrary state
pub fn setup(version: u32, isa: u8) -> (Mac, Spec) {
    let r = regs(1);
    let pc = u64v();
    let lr = u64v();
    let mut data = vec![0u8; MEM];
    bytes(&mut data, 2, 1);
    let mut fl = [0u8; MEM / 4096];
    bytes(&mut fl, 3, 1);
    let mut mem = Mem::new(FlatMemory::new_with_memory(MEM));
    bytes(mem.inner_mut(), 2, 1);
    for i in 0..fl.len() {
        fl[i] &= 7;
        let _ = mem.set_flag(i as u64, fl[i]);
    }
    mem.set_lr(&lr);
    let core = DefaultCoreMachine::<u64, Mem>::new_with_memory(isa, version, u64::MAX, mem);
    let mut m = DefaultMachineBuilder::new(core).build();
    for i in 0..32 {
        m.set_register(i, r[i]);
    }
    m.update_pc(pc);
    m.commit_pc();
    (m, Spec { x: r, pc, mem: data, flags: fl.to_vec(), lr, version })
}

/// same registers, pc, memory, reservation (through arbitrary probes)
pub fn same_state(m: &mut Mac, s: &Spec) -> bool {
    let i = reg() as usize;
    let p = u64v() as usize & (MEM - 1);
    observe(m.registers()[i]);
    let b = m.memory_mut().inner_mut()[p];
    m.registers()[i] == s.x[i] && b == s.mem[p]
}

fn step_vs_spec(w: u32, len: u64, version: u32) {
    let (mut m, mut s) = setup(version, ISA_IMC | ISA_A | ISA_B);
    let pc = s.pc;
    assume(pc & 1 == 0 && pc < MEM as u64 - 4);
    // fetched from executable pages
    assume(s.flags[(pc >> 12) as usize] & 2 != 0 && s.flags[((pc + 3) >> 12) as usize] & 2 != 0);
    let p = pc as usize;
    if len == 4 {
        let b = w.to_le_bytes();
        s.mem[p..p + 4].copy_from_slice(&b);
        m.memory_mut().inner_mut()[p..p + 4].copy_from_slice(&b);
    } else {
        let b = (w as u16).to_le_bytes();
        s.mem[p..p + 2].copy_from_slice(&b);
        m.memory_mut().inner_mut()[p..p + 2].copy_from_slice(&b);
    }
    let mut d = build_decoder::<u64>(m.isa(), version);
    let r = m.step(&mut d);
    let e = if len == 4 {
        s.exec(w, 4)
    } else {
        match spec::expand(w & 0xffff, version) {
            Some(x) => s.exec(x, 2),
            None => Err(spec::INVALID),
        }
    };
    finish(&mut m, s, r.map_err(|e| ecode(&e)), e, pc);
}

fn finish(m: &mut Mac, mut s: Spec, r: Result<(), (u64, u64, u64)>, e: Result<(), u64>, pc: u64) {
    match e {
        Ok(()) => {
            chk!(101, r.is_ok(), "a legal instruction executes");
            reach(1);
        }
        Err(spec::ECALL) => {
            let code = s.x[17];
            if code == 93 {
                chk!(102, r.is_ok() && !m.running() && m.exit_code() == s.x[10] as i8, "exit system call");
            } else {
                chk!(103, r == Err((10, code, 0)), "unknown system call refused");
            }
            reach(2);
        }
        Err(spec::EBREAK) => {
            chk!(104, r.is_ok(), "EBREAK without a debugger does nothing");
            reach(3);
        }
        Err(k) => {
            chk!(105, matches!(r, Err((c, _, _)) if c == k), "refused with the right kind of error");
            if k == spec::INVALID {
                chk!(106, matches!(r, Err((_, a, _)) if a == pc), "the error names the address");
                chk!(107, *m.pc() == pc, "pc stays on the refused instruction");
                s.pc = pc;
            }
            reach(4);
            if k != spec::INVALID {
                // what an instruction leaves behind in registers when a memory access fails is not part of the claim
                let p = u64v() as usize & (MEM - 1);
                chk!(108, m.memory_mut().inner_mut()[p] == s.mem[p], "a refused access changes no memory");
                return;
            }
        }
    }
    chk!(109, *m.pc() == s.pc, "next pc");
    chk!(110, same_state(m, &s), "registers and memory");
    chk!(111, *m.memory_mut().lr() == s.lr, "reservation");
    chk!(112, m.registers()[0] == 0, "x0 is zero");
}

const MAJOR: [u32; 14] = [0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x0f, 0x73, 0x13, 0x1b, 0x33, 0x3b, 0x2f];

/// is this word of the OP, OP-32, OP-IMM, OP-IMM-32 space one of RV64I or M?
fn base_alu(w: u32) -> bool {
    let (op, f3, f7, f6) = (w & 0x7f, w >> 12 & 7, w >> 25, w >> 26);
    match op {
        0x13 => (f3 != 1 && f3 != 5) || f6 == 0 || (f3 == 5 && f6 == 0x10),
        0x1b => f3 == 0 || ((f3 == 1 || f3 == 5) && f7 == 0) || (f3 == 5 && f7 == 0x20),
        _ => f7 <= 1 || (f7 == 0x20 && (f3 == 0 || f3 == 5)),
    }
}

/// one entry for all 32-bit words; the choices say what it is about
#[no_mangle]
pub extern "C" fn h_isa32() {
    let version = [1u32, 2, 0][choice(3)];
    let g = choice(15);
    let r = u32v();
    let w = if g < 14 {
        let f3 = choice(8) as u32;
        let w = (r & !0x707f) | MAJOR[g] | f3 << 12;
        if g >= 9 && g <= 12 {
            let half = choice(2);
            assume(base_alu(w) == (half == 0));
        }
        w
    } else {
        let w = r | 3;
        assume(MAJOR.iter().all(|m| w & 0x7f != *m));
        w
    };
    step_vs_spec(w, 4, version);
}
#[no_mangle]
pub extern "C" fn h_isa16() {
    let version = [1u32, 2, 0][choice(3)];
    let q = choice(3) as u32;
    let f = choice(8) as u32;
    step_vs_spec((u32v() & 0x1ffc) | q | f << 13, 2, version);
}
