//! The RISC-V semantics the machine is held against, written from the ISA manual (RV64I, M, A, C, Zba, Zbb, Zbc,
//! Zbs) and the documented choices of the machine: an instruction word -> effect on (registers, pc, memory,
//! reservation). Nothing here uses the implementation.

pub const OOB: u64 = 15;
pub const INVALID: u64 = 11;
pub const WX: u64 = 18;
pub const ECALL: u64 = 100;
pub const EBREAK: u64 = 101;

pub struct Spec {
    pub x: [u64; 32],
    pub pc: u64,
    pub mem: Vec<u8>,
    /// page flags, bit 1 = executable (not writable)
    pub flags: Vec<u8>,
    /// reservation address, u64::MAX = none
    pub lr: u64,
    pub version: u32,
}

#[inline(always)]
fn sx(v: u64, bits: u32) -> u64 {
    (((v << (64 - bits)) as i64) >> (64 - bits)) as u64
}
#[inline(always)]
fn sx32(v: u64) -> u64 {
    v as u32 as i32 as i64 as u64
}
#[inline(always)]
fn bits(w: u32, hi: u32, lo: u32) -> u32 {
    (w >> lo) & ((1u32 << (hi - lo + 1)).wrapping_sub(1))
}

impl Spec {
    fn in_bounds(&self, a: u64, n: u64) -> bool {
        a < self.mem.len() as u64 && n <= self.mem.len() as u64 - a
    }
    pub fn raw(&self, a: u64, n: u64) -> u64 {
        unsafe {
            let p = self.mem.as_ptr().add(a as usize);
            match n {
                1 => *p as u64,
                2 => (p as *const u16).read_unaligned() as u64,
                4 => (p as *const u32).read_unaligned() as u64,
                _ => (p as *const u64).read_unaligned(),
            }
        }
    }
    pub fn load(&self, a: u64, n: u64) -> Result<u64, u64> {
        if !self.in_bounds(a, n) {
            return Err(OOB);
        }
        // the first released version cannot read the last byte of the memory
        Ok(self.raw(a, n))
    }
    fn iload(&self, a: u64, n: u64) -> Result<u64, u64> {
        if self.version == 0 && a.wrapping_add(n) == self.mem.len() as u64 {
            return Err(OOB);
        }
        self.load(a, n)
    }
    pub fn store(&mut self, a: u64, n: u64, v: u64) -> Result<(), u64> {
        if !self.in_bounds(a, n) {
            return Err(OOB);
        }
        if self.flags[(a >> 12) as usize] & 2 != 0 || self.flags[((a + n - 1) >> 12) as usize] & 2 != 0 {
            return Err(WX);
        }
        unsafe {
            let p = self.mem.as_mut_ptr().add(a as usize);
            match n {
                1 => *p = v as u8,
                2 => (p as *mut u16).write_unaligned(v as u16),
                4 => (p as *mut u32).write_unaligned(v as u32),
                _ => (p as *mut u64).write_unaligned(v),
            }
        }
        Ok(())
    }
    #[inline(always)]
    fn set(&mut self, rd: u32, v: u64) {
        let rd = (rd & 31) as usize;
        self.x[rd] = if rd == 0 { 0 } else { v };
    }
    #[inline(always)]
    fn get(&self, r: u32) -> u64 {
        self.x[(r & 31) as usize]
    }

    /// executes a 32-bit encoding that occupies len bytes; the pc is updated in every case
    pub fn exec(&mut self, w: u32, len: u64) -> Result<(), u64> {
        let next = self.pc.wrapping_add(len);
        let rd = bits(w, 11, 7);
        let f3 = bits(w, 14, 12);
        let rs1 = bits(w, 19, 15);
        let rs2 = bits(w, 24, 20);
        let f7 = bits(w, 31, 25);
        let imm_i = sx((w >> 20) as u64, 12);
        let imm_s = sx(((f7 << 5) | rd) as u64, 12);
        let imm_b = sx(((bits(w, 31, 31) << 12) | (bits(w, 7, 7) << 11) | (bits(w, 30, 25) << 5) | (bits(w, 11, 8) << 1)) as u64, 13);
        let imm_u = sx32((w & 0xfffff000) as u64);
        let imm_j = sx(
            ((bits(w, 31, 31) << 20) | (bits(w, 19, 12) << 12) | (bits(w, 20, 20) << 11) | (bits(w, 30, 21) << 1)) as u64,
            21,
        );
        let a = self.get(rs1);
        let b = self.get(rs2);
        let pc = self.pc;
        match w & 0x7f {
            0x37 => self.set(rd, imm_u),
            0x17 => self.set(rd, pc.wrapping_add(imm_u)),
            0x6f => {
                self.set(rd, next);
                self.pc = pc.wrapping_add(imm_j);
                return Ok(());
            }
            0x67 => {
                if f3 != 0 {
                    return Err(INVALID);
                }
                let mut base = a;
                if self.version == 0 && rd == rs1 && rd != 0 {
                    // the first version writes the link before it reads the base
                    base = next;
                }
                self.set(rd, next);
                self.pc = base.wrapping_add(imm_i) & !1;
                return Ok(());
            }
            0x63 => {
                let t = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => (a as i64) < (b as i64),
                    5 => (a as i64) >= (b as i64),
                    6 => a < b,
                    7 => a >= b,
                    _ => return Err(INVALID),
                };
                self.pc = if t { pc.wrapping_add(imm_b) } else { next };
                return Ok(());
            }
            0x03 => {
                if f3 == 7 {
                    return Err(INVALID);
                }
                self.pc = next;
                let n = 1u64 << (f3 & 3);
                let v = self.iload(a.wrapping_add(imm_i), n)?;
                let v = match f3 {
                    0 => sx(v, 8),
                    1 => sx(v, 16),
                    2 => sx(v, 32),
                    _ => v,
                };
                self.set(rd, v);
            }
            0x23 => {
                if f3 > 3 {
                    return Err(INVALID);
                }
                self.pc = next;
                self.store(a.wrapping_add(imm_s), 1 << f3, b)?;
            }
            0x0f => {
                // FENCE (reserved fields zero) and FENCE.I do nothing here
                if !(w == 0x0000100f || w & 0x000fffff == 0x0f) {
                    return Err(INVALID);
                }
            }
            0x73 => {
                self.pc = next;
                return match w {
                    0x73 => Err(ECALL),
                    0x100073 => Err(EBREAK),
                    _ => {
                        self.pc = pc;
                        Err(INVALID)
                    }
                };
            }
            0x13 => {
                let sh6 = bits(w, 25, 20);
                let top6 = bits(w, 31, 26);
                let v = match f3 {
                    0 => a.wrapping_add(imm_i),
                    2 => ((a as i64) < (imm_i as i64)) as u64,
                    3 => (a < imm_i) as u64,
                    4 => a ^ imm_i,
                    6 => a | imm_i,
                    7 => a & imm_i,
                    1 => match top6 {
                        0 => a << sh6,
                        0b010010 => a & !(1 << sh6),
                        0b011010 => a ^ (1 << sh6),
                        0b001010 => a | (1 << sh6),
                        0b011000 => match sh6 {
                            0 => a.leading_zeros() as u64,
                            1 => a.trailing_zeros() as u64,
                            2 => a.count_ones() as u64,
                            4 => sx(a, 8),
                            5 => sx(a, 16),
                            _ => return Err(INVALID),
                        },
                        _ => return Err(INVALID),
                    },
                    _ => match top6 {
                        0 => a >> sh6,
                        0b010000 => ((a as i64) >> sh6) as u64,
                        0b010010 => (a >> sh6) & 1,
                        0b011000 => a.rotate_right(sh6),
                        0b001010 if sh6 == 7 => {
                            let mut r = 0;
                            for i in 0..8 {
                                if (a >> (8 * i)) & 0xff != 0 {
                                    r |= 0xffu64 << (8 * i);
                                }
                            }
                            r
                        }
                        0b011010 if sh6 == 0b111000 => a.swap_bytes(),
                        _ => return Err(INVALID),
                    },
                };
                self.set(rd, v);
            }
            0x1b => {
                let sh = rs2;
                let v = match (f3, f7) {
                    (0, _) => sx32(a.wrapping_add(imm_i)),
                    (1, 0) => sx32(a << sh),
                    (5, 0) => sx32(((a as u32) >> sh) as u64),
                    (5, 0x20) => sx32(((a as i32) >> sh) as u64),
                    // SLLI.UW
                    (1, 4) | (1, 5) => (a & 0xffff_ffff) << bits(w, 25, 20),
                    (1, 0x30) => match rs2 {
                        0 => (a as u32).leading_zeros() as u64,
                        1 => (a as u32).trailing_zeros() as u64,
                        2 => (a as u32).count_ones() as u64,
                        _ => return Err(INVALID),
                    },
                    (5, 0x30) => sx32((a as u32).rotate_right(sh) as u64),
                    _ => return Err(INVALID),
                };
                self.set(rd, v);
            }
            0x33 => {
                let sh = (b & 63) as u32;
                let v = match (f7, f3) {
                    (0, 0) => a.wrapping_add(b),
                    (0x20, 0) => a.wrapping_sub(b),
                    (0, 1) => a << sh,
                    (0, 2) => ((a as i64) < (b as i64)) as u64,
                    (0, 3) => (a < b) as u64,
                    (0, 4) => a ^ b,
                    (0, 5) => a >> sh,
                    (0x20, 5) => ((a as i64) >> sh) as u64,
                    (0, 6) => a | b,
                    (0, 7) => a & b,
                    (1, 0) => a.wrapping_mul(b),
                    (1, 1) => ((a as i64 as i128).wrapping_mul(b as i64 as i128) >> 64) as u64,
                    (1, 2) => ((a as i64 as i128).wrapping_mul(b as i128) >> 64) as u64,
                    (1, 3) => ((a as u128).wrapping_mul(b as u128) >> 64) as u64,
                    (1, 4) => {
                        if b == 0 {
                            u64::MAX
                        } else {
                            (a as i64).wrapping_div(b as i64) as u64
                        }
                    }
                    (1, 5) => {
                        if b == 0 {
                            u64::MAX
                        } else {
                            a / b
                        }
                    }
                    (1, 6) => {
                        if b == 0 {
                            a
                        } else {
                            (a as i64).wrapping_rem(b as i64) as u64
                        }
                    }
                    (1, 7) => {
                        if b == 0 {
                            a
                        } else {
                            a % b
                        }
                    }
                    (0x20, 7) => a & !b,
                    (0x20, 6) => a | !b,
                    (0x20, 4) => a ^ !b,
                    (0x30, 1) => a.rotate_left(sh),
                    (0x30, 5) => a.rotate_right(sh),
                    (0x34, 1) => a ^ (1 << sh),
                    (0x14, 1) => a | (1 << sh),
                    (0x24, 1) => a & !(1 << sh),
                    (0x24, 5) => (a >> sh) & 1,
                    (0x10, 2) => b.wrapping_add(a << 1),
                    (0x10, 4) => b.wrapping_add(a << 2),
                    (0x10, 6) => b.wrapping_add(a << 3),
                    (5, 1) => clmul(a, b),
                    (5, 3) => clmulh(a, b),
                    (5, 2) => clmulr(a, b),
                    (5, 4) => (a as i64).min(b as i64) as u64,
                    (5, 5) => a.min(b),
                    (5, 6) => (a as i64).max(b as i64) as u64,
                    (5, 7) => a.max(b),
                    _ => return Err(INVALID),
                };
                self.set(rd, v);
            }
            0x3b => {
                let sh = (b & 31) as u32;
                let (aw, bw) = (a as u32, b as u32);
                let v = match (f7, f3) {
                    (0, 0) => sx32(a.wrapping_add(b)),
                    (0x20, 0) => sx32(a.wrapping_sub(b)),
                    (0, 1) => sx32((aw << sh) as u64),
                    (0, 5) => sx32((aw >> sh) as u64),
                    (0x20, 5) => sx32(((aw as i32) >> sh) as u64),
                    (1, 0) => sx32(a.wrapping_mul(b)),
                    (1, 4) => {
                        if bw == 0 {
                            u64::MAX
                        } else {
                            sx32((aw as i32).wrapping_div(bw as i32) as u64)
                        }
                    }
                    (1, 5) => {
                        if bw == 0 {
                            u64::MAX
                        } else {
                            sx32((aw / bw) as u64)
                        }
                    }
                    (1, 6) => {
                        if bw == 0 {
                            sx32(a)
                        } else {
                            sx32((aw as i32).wrapping_rem(bw as i32) as u64)
                        }
                    }
                    (1, 7) => {
                        if bw == 0 {
                            sx32(a)
                        } else {
                            sx32((aw % bw) as u64)
                        }
                    }
                    (4, 0) => b.wrapping_add(aw as u64),
                    (4, 4) if rs2 == 0 => a & 0xffff,
                    (0x30, 1) => sx32(aw.rotate_left(sh) as u64),
                    (0x30, 5) => sx32(aw.rotate_right(sh) as u64),
                    (0x10, 2) => b.wrapping_add((aw as u64) << 1),
                    (0x10, 4) => b.wrapping_add((aw as u64) << 2),
                    (0x10, 6) => b.wrapping_add((aw as u64) << 3),
                    _ => return Err(INVALID),
                };
                self.set(rd, v);
            }
            0x2f => {
                if f3 != 2 && f3 != 3 {
                    return Err(INVALID);
                }
                let n = if f3 == 2 { 4 } else { 8 };
                let f5 = f7 >> 2;
                match f5 {
                    2 => {
                        if rs2 != 0 {
                            return Err(INVALID);
                        }
                    }
                    0 | 1 | 3 | 4 | 8 | 12 | 16 | 20 | 24 | 28 => (),
                    _ => return Err(INVALID),
                }
                self.pc = next;
                let v = self.load(a, n)?;
                let v = if n == 4 { sx32(v) } else { v };
                if f5 == 2 {
                    self.lr = a;
                    self.set(rd, v);
                } else if f5 == 3 {
                    let ok = self.lr == a;
                    self.store(a, n, if ok { b } else { v })?;
                    self.lr = u64::MAX;
                    self.set(rd, !ok as u64);
                } else {
                    let (o, m) = (v, if n == 4 { sx32(b) } else { b });
                    let r = match f5 {
                        0 => o.wrapping_add(m),
                        1 => m,
                        4 => o ^ m,
                        8 => o | m,
                        12 => o & m,
                        16 => (o as i64).min(m as i64) as u64,
                        20 => (o as i64).max(m as i64) as u64,
                        24 => o.min(m),
                        _ => o.max(m),
                    };
                    self.store(a, n, r)?;
                    self.set(rd, v);
                }
            }
            _ => return Err(INVALID),
        }
        self.pc = next;
        Ok(())
    }
}

pub fn clmul(a: u64, b: u64) -> u64 {
    let mut x = 0;
    for i in 0..64 {
        x ^= if (b >> i) & 1 != 0 { a << i } else { 0 };
    }
    x
}
pub fn clmulh(a: u64, b: u64) -> u64 {
    let mut x = 0;
    for i in 1..64 {
        x ^= if (b >> i) & 1 != 0 { a >> (64 - i) } else { 0 };
    }
    x
}
pub fn clmulr(a: u64, b: u64) -> u64 {
    let mut x = 0;
    for i in 0..64 {
        x ^= if (b >> i) & 1 != 0 { a >> (63 - i) } else { 0 };
    }
    x
}

fn enc_i(op: u32, f3: u32, rd: u32, rs1: u32, imm: u32) -> u32 {
    op | (rd << 7) | (f3 << 12) | (rs1 << 15) | (imm << 20)
}
fn enc_s(op: u32, f3: u32, rs1: u32, rs2: u32, imm: u32) -> u32 {
    op | ((imm & 31) << 7) | (f3 << 12) | (rs1 << 15) | (rs2 << 20) | ((imm >> 5) << 25)
}
fn enc_r(op: u32, f3: u32, f7: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    op | (rd << 7) | (f3 << 12) | (rs1 << 15) | (rs2 << 20) | (f7 << 25)
}
fn enc_b(f3: u32, rs1: u32, imm: u32) -> u32 {
    0x63 | (((imm >> 11) & 1) << 7) | (((imm >> 1) & 15) << 8) | (f3 << 12) | (rs1 << 15) | (((imm >> 5) & 63) << 25) | (((imm >> 12) & 1) << 31)
}
fn enc_j(rd: u32, imm: u32) -> u32 {
    0x6f | (rd << 7) | (imm & 0xff000) | (((imm >> 11) & 1) << 20) | (((imm >> 1) & 0x3ff) << 21) | (((imm >> 20) & 1) << 31)
}
pub const NOP: u32 = 0x13;

/// the 32-bit instruction a compressed one stands for (RV64C without floating point); None = illegal
pub fn expand(h: u32, version: u32) -> Option<u32> {
    let f3 = bits(h, 15, 13);
    let rd = bits(h, 11, 7);
    let rs2 = bits(h, 6, 2);
    let rdp = 8 + bits(h, 4, 2);
    let rs1p = 8 + bits(h, 9, 7);
    let imm6 = sx(((bits(h, 12, 12) << 5) | bits(h, 6, 2)) as u64, 6) as u32;
    let sh6 = (bits(h, 12, 12) << 5) | bits(h, 6, 2);
    // encodings reserved for hints: no effect; the first version refuses them
    let hint = if version >= 1 { Some(NOP) } else { None };
    match (h & 3, f3) {
        (0, 0) => {
            let u = (bits(h, 10, 7) << 6) | (bits(h, 12, 11) << 4) | (bits(h, 5, 5) << 3) | (bits(h, 6, 6) << 2);
            if u == 0 {
                return None;
            }
            Some(enc_i(0x13, 0, rdp, 2, u))
        }
        (0, 2) => Some(enc_i(3, 2, rdp, rs1p, uw(h))),
        (0, 3) => Some(enc_i(3, 3, rdp, rs1p, ud(h))),
        (0, 6) => Some(enc_s(0x23, 2, rs1p, rdp, uw(h))),
        (0, 7) => Some(enc_s(0x23, 3, rs1p, rdp, ud(h))),
        (1, 0) => {
            if rd == 0 && imm6 == 0 {
                return Some(NOP);
            }
            if rd == 0 || imm6 == 0 {
                return hint;
            }
            Some(enc_i(0x13, 0, rd, rd, imm6))
        }
        (1, 1) => {
            if rd == 0 {
                return None;
            }
            Some(enc_i(0x1b, 0, rd, rd, imm6))
        }
        (1, 2) => {
            if rd == 0 {
                return hint;
            }
            Some(enc_i(0x13, 0, rd, 0, imm6))
        }
        (1, 3) => {
            if imm6 == 0 {
                return None;
            }
            if rd == 2 {
                let i = (bits(h, 12, 12) << 9) | (bits(h, 4, 3) << 7) | (bits(h, 5, 5) << 6) | (bits(h, 2, 2) << 5) | (bits(h, 6, 6) << 4);
                return Some(enc_i(0x13, 0, 2, 2, sx(i as u64, 10) as u32));
            }
            if rd == 0 {
                return hint;
            }
            Some(0x37 | (rd << 7) | (imm6 << 12))
        }
        (1, 4) => match bits(h, 11, 10) {
            0 => Some(enc_i(0x13, 5, rs1p, rs1p, sh6)),
            1 => Some(enc_i(0x13, 5, rs1p, rs1p, sh6 | 0x400)),
            2 => Some(enc_i(0x13, 7, rs1p, rs1p, imm6)),
            _ => match (bits(h, 12, 12), bits(h, 6, 5)) {
                (0, 0) => Some(enc_r(0x33, 0, 0x20, rs1p, rs1p, rdp)),
                (0, 1) => Some(enc_r(0x33, 4, 0, rs1p, rs1p, rdp)),
                (0, 2) => Some(enc_r(0x33, 6, 0, rs1p, rs1p, rdp)),
                (0, 3) => Some(enc_r(0x33, 7, 0, rs1p, rs1p, rdp)),
                (1, 0) => Some(enc_r(0x3b, 0, 0x20, rs1p, rs1p, rdp)),
                (1, 1) => Some(enc_r(0x3b, 0, 0, rs1p, rs1p, rdp)),
                _ => None,
            },
        },
        (1, 5) => {
            let i = (bits(h, 12, 12) << 11)
                | (bits(h, 8, 8) << 10)
                | (bits(h, 10, 9) << 8)
                | (bits(h, 6, 6) << 7)
                | (bits(h, 7, 7) << 6)
                | (bits(h, 2, 2) << 5)
                | (bits(h, 11, 11) << 4)
                | (bits(h, 5, 3) << 1);
            Some(enc_j(0, sx(i as u64, 12) as u32))
        }
        (1, 6) | (1, 7) => {
            let i = (bits(h, 12, 12) << 8) | (bits(h, 6, 5) << 6) | (bits(h, 2, 2) << 5) | (bits(h, 11, 10) << 3) | (bits(h, 4, 3) << 1);
            Some(enc_b(f3 - 6, rs1p, sx(i as u64, 9) as u32))
        }
        (2, 0) => {
            if rd == 0 || sh6 == 0 {
                return hint;
            }
            Some(enc_i(0x13, 1, rd, rd, sh6))
        }
        (2, 2) => {
            if rd == 0 {
                return None;
            }
            Some(enc_i(3, 2, rd, 2, (bits(h, 3, 2) << 6) | (bits(h, 12, 12) << 5) | (bits(h, 6, 4) << 2)))
        }
        (2, 3) => {
            if rd == 0 {
                return None;
            }
            Some(enc_i(3, 3, rd, 2, (bits(h, 4, 2) << 6) | (bits(h, 12, 12) << 5) | (bits(h, 6, 5) << 3)))
        }
        (2, 4) => match (bits(h, 12, 12), rd, rs2) {
            (0, 0, 0) => None,
            (0, r, 0) => Some(enc_i(0x67, 0, 0, r, 0)),
            (0, 0, _) => hint,
            (0, r, s) => Some(enc_r(0x33, 0, 0, r, 0, s)),
            (_, 0, 0) => Some(0x100073),
            (_, r, 0) => Some(enc_i(0x67, 0, 1, r, 0)),
            (_, 0, _) => hint,
            (_, r, s) => Some(enc_r(0x33, 0, 0, r, r, s)),
        },
        (2, 6) => Some(enc_s(0x23, 2, 2, rs2, (bits(h, 8, 7) << 6) | (bits(h, 12, 9) << 2))),
        (2, 7) => Some(enc_s(0x23, 3, 2, rs2, (bits(h, 9, 7) << 6) | (bits(h, 12, 10) << 3))),
        _ => None,
    }
}
fn uw(h: u32) -> u32 {
    (bits(h, 12, 10) << 3) | (bits(h, 6, 6) << 2) | (bits(h, 5, 5) << 6)
}
fn ud(h: u32) -> u32 {
    (bits(h, 12, 10) << 3) | (bits(h, 6, 5) << 6)
}
