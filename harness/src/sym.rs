use ckb_vm::Error;

mod ffi {
    extern "C" {
        pub fn sym_u64() -> u64;
        pub fn sym_bytes(p: *mut u8, len: u64, tag: u64, gran: u64);
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_choice(n: u32) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_print(v: u64);
        pub fn sym_tier() -> u64;
    }
}

/// a fresh unconstrained 64-bit value
#[inline(always)]
pub fn u64v() -> u64 {
    unsafe { ffi::sym_u64() }
}
#[inline(always)]
pub fn u32v() -> u32 {
    u64v() as u32
}
#[inline(always)]
pub fn u8v() -> u8 {
    u64v() as u8
}
#[inline(always)]
pub fn boolv() -> bool {
    u64v() & 1 == 1
}
/// a register number
#[inline(always)]
pub fn reg() -> u64 {
    u64v() & 31
}
/// a fresh value below n
pub fn below(n: u64) -> u64 {
    let v = u64v();
    assume(v < n);
    v
}
/// fills a buffer with symbolic bytes; the same tag gives the same contents (gran: 1 or 8)
pub fn bytes(b: &mut [u8], tag: u64, gran: u64) {
    unsafe { ffi::sym_bytes(b.as_mut_ptr(), b.len() as u64, tag, gran) }
}
pub fn regs(tag: u64) -> [u64; 32] {
    let mut r = [0u64; 32];
    unsafe { ffi::sym_bytes(r.as_mut_ptr() as *mut u8, 256, tag, 8) }
    r[0] = 0;
    r
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c as u32) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { ffi::sym_assert(c as u32, id) }
}
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { ffi::sym_reach(id) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { ffi::sym_observe(v) }
}
/// explores all n alternatives
#[inline(always)]
pub fn choice(n: usize) -> usize {
    unsafe { ffi::sym_choice(n as u32) as usize }
}
/// enumerates every feasible value
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { ffi::sym_concretize(v) }
}
pub fn print(v: u64) {
    unsafe { ffi::sym_print(v) }
}
pub fn thorough() -> bool {
    unsafe { ffi::sym_tier() != 0 }
}

/// chk!(id, condition, "what it says")
#[macro_export]
macro_rules! chk {
    ($id:literal, $c:expr, $t:literal) => {
        $crate::sym::check($c, $id)
    };
}

/// error kind and payloads as plain numbers
pub fn ecode(e: &Error) -> (u64, u64, u64) {
    use ckb_vm::error::OutOfBoundKind;
    match e {
        Error::Asm(x) => (1, *x as u64, 0),
        Error::CyclesExceeded => (2, 0, 0),
        Error::CyclesOverflow => (3, 0, 0),
        Error::ElfBits => (4, 0, 0),
        Error::ElfParseError(_) => (5, 0, 0),
        Error::ElfSegmentUnreadable(a) => (6, *a, 0),
        Error::ElfSegmentWritableAndExecutable(a) => (7, *a, 0),
        Error::ElfSegmentAddrOrSizeError(a) => (8, *a, 0),
        Error::External(_) => (9, 0, 0),
        Error::InvalidEcall(c) => (10, *c, 0),
        Error::InvalidInstruction { pc, instruction } => (11, *pc, *instruction as u64),
        Error::InvalidOp(o) => (12, *o as u64, 0),
        Error::InvalidVersion => (13, 0, 0),
        Error::IO { .. } => (14, 0, 0),
        Error::MemOutOfBound(a, OutOfBoundKind::Memory) => (15, *a, 0),
        Error::MemOutOfBound(a, OutOfBoundKind::ExternalData) => (15, *a, 1),
        Error::MemOutOfStack => (16, 0, 0),
        Error::MemPageUnalignedAccess(a) => (17, *a, 0),
        Error::MemWriteOnExecutablePage(p) => (18, *p, 0),
        Error::MemWriteOnFreezedPage(p) => (19, *p, 0),
        Error::Pause => (20, 0, 0),
        Error::SnapshotDataLoadError => (21, 0, 0),
        Error::Unexpected(_) => (22, 0, 0),
        Error::Yield => (23, 0, 0),
    }
}

pub fn rcode<T>(r: &Result<T, Error>) -> (u64, u64, u64) {
    match r {
        Ok(_) => (0, 0, 0),
        Err(e) => ecode(e),
    }
}

/// kind of error only
pub fn rkind<T>(r: &Result<T, Error>) -> u64 {
    rcode(r).0
}
