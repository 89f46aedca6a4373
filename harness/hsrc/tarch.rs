//! A synthetic architecture, generic over its address type.

use crate::engine::mix;
use gdbstub::arch::lldb;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::num::NonZeroUsize;

thread_local! {
    /// number of bytes of the register block
    pub static REG_LEN: Cell<usize> = const { Cell::new(16) };
    /// breakpoint kinds: 0 = picky, 1 = any (like `usize`), 2 = only zero (like `()`)
    pub static BK_MODE: Cell<u8> = const { Cell::new(0) };
    pub static ARCH_XML: Cell<Option<&'static str>> = const { Cell::new(None) };
    /// salt of the arch-level lldb info, None = not provided
    pub static ARCH_LLDB: Cell<Option<u64>> = const { Cell::new(None) };
    pub static NOTE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub const BIG_XML: &str = include_str!("big.xml");

pub trait UInt: Copy + std::fmt::Debug + Default + PartialEq + Send + 'static + num_traits::PrimInt + num_traits::Unsigned + num_traits::FromPrimitive {
    const BITS: u32;
    fn to128(self) -> u128;
    fn from128(v: u128) -> Self;
}
macro_rules! ui { ($($t:ty)*) => { $(impl UInt for $t {
    const BITS: u32 = <$t>::BITS;
    fn to128(self) -> u128 { self as u128 }
    fn from128(v: u128) -> Self { v as $t }
})* } }
ui!(u16 u32 u64);

pub struct TA<U>(PhantomData<U>);

#[derive(Debug, Default, Clone, PartialEq)]
pub struct VRegs<U> {
    pub bytes: Vec<Option<u8>>,
    pub p: PhantomData<U>,
}

impl<U: UInt> Registers for VRegs<U> {
    type ProgramCounter = U;
    fn pc(&self) -> U { U::default() }
    fn gdb_serialize(&self, mut w: impl FnMut(Option<u8>)) {
        for b in &self.bytes { w(*b) }
    }
    fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
        if bytes.len() != REG_LEN.with(|r| r.get()) { return Err(()) }
        self.bytes = bytes.iter().map(|b| Some(*b)).collect();
        Ok(())
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct TReg(pub usize);

/// None: unknown; Some(None): variable size; Some(Some(n)): sized
pub fn reg_info(id: usize) -> Option<Option<usize>> {
    match id {
        0..=39 => Some(Some(1 + (id * 7) % 33)),
        40..=47 => Some(None),
        61..=64 => Some(Some(64)),
        65..=69 => Some(Some([65, 100, 256, 300, 1040][id - 65])),
        70 => Some(None),
        0x100 => Some(Some(4)),
        0x1234_5678 => Some(Some(8)),
        0xffff_ffff_ffff_ffff => Some(Some(2)),
        _ => None,
    }
}
impl RegId for TReg {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        reg_info(id).map(|s| (TReg(id), s.and_then(NonZeroUsize::new)))
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct TBk(pub usize);
pub fn bk_ok(k: u128) -> bool {
    match BK_MODE.with(|m| m.get()) { 1 => return k <= usize::MAX as u128, 2 => return k == 0, _ => {} }
    k <= usize::MAX as u128 && k % 7 != 6 && k < (1 << 40)
}
impl BreakpointKind for TBk {
    fn from_usize(k: usize) -> Option<Self> {
        bk_ok(k as u128).then_some(TBk(k))
    }
}

const NAMES: &[&str] = &["r0", "pc", "v31", "cpsr", "aaaaaaaaaaaaaaaa", "x", "st(0)", "r000000007", "", "R0", "xmm15.hi", "fs_base"];
const SETS: &[&str] = &["General Purpose Registers", "Floating Point Registers", "S", "aaaaa"];
const LISTS: &[&[usize]] = &[&[0], &[1, 2, 3], &[10, 11, 255, 256], &[0x100000, 0, 0, 0, 0], &[usize::MAX], &[],
    &[7, 7], &[9, 8], &[0, 0], &[1, 1, 1], &[5, 6], &[17, 3, 17], &[0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f, 0x20]];

#[derive(Debug, Clone, PartialEq)]
pub struct LReg {
    pub name: String,
    pub alt: Option<String>,
    pub bitsize: usize,
    pub offset: usize,
    pub enc: u8,
    pub fmt: u8,
    pub set: String,
    pub gcc: Option<usize>,
    pub dwarf: Option<usize>,
    pub generic: Option<u8>,
    pub cont: Option<Vec<usize>>,
    pub inval: Option<Vec<usize>>,
}
pub const ENC: &[&str] = &["uint", "sint", "ieee754", "vector"];
pub const FMT: &[&str] = &["binary", "decimal", "hex", "float", "vector-sint8", "vector-uint8", "vector-sint16", "vector-uint16", "vector-sint32", "vector-uint32", "vector-float32", "vector-uint128"];
pub const GEN: &[&str] = &["pc", "sp", "fp", "ra", "flags", "arg1", "arg2", "arg3", "arg4", "arg5", "arg6", "arg7", "arg8"];

fn dnum(h: u64) -> usize {
    match h % 7 {
        0 => 0,
        1 => 32,
        2 => (h >> 8) as usize % 1000,
        3 => 10usize.pow((h >> 8) as u32 % 20),
        4 => usize::MAX - (h >> 8) as usize % 3,
        5 => 111111 * (1 + (h >> 8) as usize % 9),
        _ => (h >> 8) as usize,
    }
}

/// the synthetic lldb information of register `id`; None = past the end
pub fn lreg(salt: u64, id: usize) -> Option<LReg> {
    let nregs = (salt % 24) as usize;
    if id >= nregs { return None }
    let h = |k: u64| mix(mix(salt, id as u64), k);
    let opt = |k: u64| h(k) % 2 == 0;
    Some(LReg {
        name: NAMES[h(1) as usize % NAMES.len()].into(),
        alt: opt(2).then(|| NAMES[h(3) as usize % NAMES.len()].to_string()),
        bitsize: dnum(h(4)),
        offset: dnum(h(5)),
        enc: (h(6) % ENC.len() as u64) as u8,
        fmt: (h(7) % FMT.len() as u64) as u8,
        set: SETS[h(8) as usize % SETS.len()].into(),
        gcc: opt(9).then(|| dnum(h(10))),
        dwarf: opt(11).then(|| dnum(h(12))),
        generic: opt(13).then(|| (h(14) % GEN.len() as u64) as u8),
        cont: opt(15).then(|| LISTS[h(16) as usize % LISTS.len()].to_vec()),
        inval: opt(17).then(|| LISTS[h(18) as usize % LISTS.len()].to_vec()),
    })
}

pub fn with_lldb<R>(r: &LReg, f: impl FnOnce(lldb::Register<'_>) -> R) -> R {
    f(lldb::Register {
        name: &r.name,
        alt_name: r.alt.as_deref(),
        bitsize: r.bitsize,
        offset: r.offset,
        encoding: lenc(r.enc),
        format: lfmt(r.fmt),
        set: &r.set,
        gcc: r.gcc,
        dwarf: r.dwarf,
        generic: r.generic.map(lgen),
        container_regs: r.cont.as_deref(),
        invalidate_regs: r.inval.as_deref(),
    })
}
fn lenc(e: u8) -> lldb::Encoding {
    use lldb::Encoding::*;
    match e { 0 => Uint, 1 => Sint, 2 => IEEE754, _ => Vector }
}
fn lfmt(e: u8) -> lldb::Format {
    use lldb::Format::*;
    match e { 0 => Binary, 1 => Decimal, 2 => Hex, 3 => Float, 4 => VectorSInt8, 5 => VectorUInt8, 6 => VectorSInt16, 7 => VectorUInt16, 8 => VectorSInt32, 9 => VectorUInt32, 10 => VectorFloat32, _ => VectorUInt128 }
}
fn lgen(e: u8) -> lldb::Generic {
    use lldb::Generic::*;
    match e { 0 => Pc, 1 => Sp, 2 => Fp, 3 => Ra, 4 => Flags, 5 => Arg1, 6 => Arg2, 7 => Arg3, 8 => Arg4, 9 => Arg5, 10 => Arg6, 11 => Arg7, _ => Arg8 }
}
fn lst(x: &[usize]) -> &'static [usize] {
    LISTS.iter().find(|l| **l == x).unwrap()
}
fn nm(x: &str) -> &'static str {
    NAMES.iter().find(|l| **l == x).unwrap()
}

impl<U> Arch for TA<U>
where
    U: UInt + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes,
{
    type Usize = U;
    type Registers = VRegs<U>;
    type BreakpointKind = TBk;
    type RegId = TReg;
    fn target_description_xml() -> Option<&'static str> {
        ARCH_XML.with(|x| x.get())
    }
    fn lldb_register_info(reg_id: usize) -> Option<lldb::RegisterInfo<'static>> {
        let salt = ARCH_LLDB.with(|x| x.get())?;
        match lreg(salt, reg_id) {
            None => Some(lldb::RegisterInfo::Done),
            Some(r) => Some(lldb::RegisterInfo::Register(lldb::Register {
                name: nm(&r.name),
                alt_name: r.alt.as_deref().map(nm),
                bitsize: r.bitsize,
                offset: r.offset,
                encoding: lenc(r.enc),
                format: lfmt(r.fmt),
                set: SETS.iter().find(|s| **s == r.set).unwrap(),
                gcc: r.gcc,
                dwarf: r.dwarf,
                generic: r.generic.map(lgen),
                container_regs: r.cont.as_deref().map(lst),
                invalidate_regs: r.inval.as_deref().map(lst),
            })),
        }
    }
}
