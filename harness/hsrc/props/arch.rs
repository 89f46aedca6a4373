//! P29 and P30: the register files of the shipped architectures, against hand-written layout tables.

use crate::engine::*;
use crate::rsp::show;
use crate::sysregs::SYS;
use gdbstub::arch::{Arch, RegId, Registers};
use gdbstub_arch as ga;

/// one position of the register block
#[derive(Clone, Debug)]
struct Fld { name: String, size: usize, val: Option<Vec<u8>> }

trait Layout: Registers + Clone + std::fmt::Debug + Default {
    /// the block in the order of the target description; `None` for registers that are not available
    fn layout(&self) -> Vec<Fld>;
    /// random contents
    fn gen(s: &mut Src) -> Self;
    fn program_counter(&self) -> Vec<u8>;
    fn pc_bytes(&self) -> Vec<u8>;
    /// bytes which the encoder appends after the last register, all unavailable
    const TRAIL: usize = 0;
    /// registers that are not available but must be zero in a decoded block
    const ZERO: bool = false;
}

fn f(name: impl Into<String>, b: impl AsRef<[u8]>) -> Fld { Fld { name: name.into(), size: b.as_ref().len(), val: Some(b.as_ref().to_vec()) } }
fn none(name: impl Into<String>, size: usize) -> Fld { Fld { name: name.into(), size, val: None } }

/// a value; each field gets a different one
fn v128(s: &mut Src) -> u128 { let (a, b) = (s.num(64), s.num(64)); (a as u128) << 64 | b as u128 }
trait Val: Sized + Copy { fn gen(s: &mut Src) -> Self; }
macro_rules! val { ($($t:ty)*) => { $(impl Val for $t { fn gen(s: &mut Src) -> $t { s.num(<$t>::BITS.min(64)) as $t } })* } }
val!(u8 u16 u32 u64);
impl Val for u128 { fn gen(s: &mut Src) -> u128 { v128(s) } }
fn g<T: Val>(s: &mut Src) -> T { T::gen(s) }
fn ga_<T: Val + Default, const N: usize>(s: &mut Src) -> [T; N] {
    let mut a = [T::default(); N];
    // few choices per array, all positions different
    let (base, step): (T, T) = (g(s), g(s));
    let _ = step;
    match s.below(3) {
        0 => for x in a.iter_mut() { *x = base },
        1 => { let i = s.usize(N); a[i] = base }
        _ => for x in a.iter_mut() { *x = g(s) },
    }
    a
}

// ---- x86
fn gen_seg(s: &mut Src) -> ga::x86::reg::X86SegmentRegs { ga::x86::reg::X86SegmentRegs { cs: g(s), ss: g(s), ds: g(s), es: g(s), fs: g(s), gs: g(s) } }
fn gen_fpu(s: &mut Src) -> ga::x86::reg::X87FpuInternalRegs { ga::x86::reg::X87FpuInternalRegs { fctrl: g(s), fstat: g(s), ftag: g(s), fiseg: g(s), fioff: g(s), foseg: g(s), fooff: g(s), fop: g(s) } }
fn lay_seg(o: &mut Vec<Fld>, r: &ga::x86::reg::X86SegmentRegs) {
    for (n, v) in [("cs", r.cs), ("ss", r.ss), ("ds", r.ds), ("es", r.es), ("fs", r.fs), ("gs", r.gs)] { o.push(f(n, v.to_le_bytes())) }
}
fn lay_fpu(o: &mut Vec<Fld>, r: &ga::x86::reg::X87FpuInternalRegs) {
    for (n, v) in [("fctrl", r.fctrl), ("fstat", r.fstat), ("ftag", r.ftag), ("fiseg", r.fiseg), ("fioff", r.fioff), ("foseg", r.foseg), ("fooff", r.fooff), ("fop", r.fop)] { o.push(f(n, v.to_le_bytes())) }
}
fn gen_st(s: &mut Src) -> [[u8; 10]; 8] {
    let mut st = [[0u8; 10]; 8];
    for x in st.iter_mut() { let b = s.bytes_n(10); x.copy_from_slice(&b) }
    st
}
impl Layout for ga::x86::reg::X86CoreRegs {
    const TRAIL: usize = 4;
    fn layout(&self) -> Vec<Fld> {
        let mut o = vec![];
        for (n, v) in [("eax", self.eax), ("ecx", self.ecx), ("edx", self.edx), ("ebx", self.ebx), ("esp", self.esp), ("ebp", self.ebp), ("esi", self.esi), ("edi", self.edi), ("eip", self.eip), ("eflags", self.eflags)] { o.push(f(n, v.to_le_bytes())) }
        lay_seg(&mut o, &self.segments);
        for (i, v) in self.st.iter().enumerate() { o.push(f(format!("st{}", i), v)) }
        lay_fpu(&mut o, &self.fpu);
        for (i, v) in self.xmm.iter().enumerate() { o.push(f(format!("xmm{}", i), v.to_le_bytes())) }
        o.push(f("mxcsr", self.mxcsr.to_le_bytes()));
        o
    }
    fn gen(s: &mut Src) -> Self {
        Self { eax: g(s), ecx: g(s), edx: g(s), ebx: g(s), esp: g(s), ebp: g(s), esi: g(s), edi: g(s), eip: g(s), eflags: g(s), segments: gen_seg(s), st: gen_st(s), fpu: gen_fpu(s), xmm: ga_(s), mxcsr: g(s) }
    }
    fn program_counter(&self) -> Vec<u8> { self.eip.to_le_bytes().to_vec() }
    fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
}
impl Layout for ga::x86::reg::X86_64CoreRegs {
    const TRAIL: usize = 0x18;
    fn layout(&self) -> Vec<Fld> {
        let mut o = vec![];
        for (n, v) in ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"].iter().zip(self.regs) { o.push(f(*n, v.to_le_bytes())) }
        o.push(f("rip", self.rip.to_le_bytes()));
        o.push(f("eflags", self.eflags.to_le_bytes()));
        lay_seg(&mut o, &self.segments);
        for (i, v) in self.st.iter().enumerate() { o.push(f(format!("st{}", i), v)) }
        lay_fpu(&mut o, &self.fpu);
        for (i, v) in self.xmm.iter().enumerate() { o.push(f(format!("xmm{}", i), v.to_le_bytes())) }
        o.push(f("mxcsr", self.mxcsr.to_le_bytes()));
        o
    }
    fn gen(s: &mut Src) -> Self {
        Self { regs: ga_(s), eflags: g(s), rip: g(s), segments: gen_seg(s), st: gen_st(s), fpu: gen_fpu(s), xmm: ga_(s), mxcsr: g(s) }
    }
    fn program_counter(&self) -> Vec<u8> { self.rip.to_le_bytes().to_vec() }
    fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
}
// ---- ARM
impl Layout for ga::arm::reg::ArmCoreRegs {
    fn layout(&self) -> Vec<Fld> {
        let mut o = vec![];
        for (i, v) in self.r.iter().enumerate() { o.push(f(format!("r{}", i), v.to_le_bytes())) }
        for (n, v) in [("sp", self.sp), ("lr", self.lr), ("pc", self.pc)] { o.push(f(n, v.to_le_bytes())) }
        for i in 0..8 { o.push(none(format!("f{}", i), 12)) }
        o.push(none("fps", 4));
        o.push(f("cpsr", self.cpsr.to_le_bytes()));
        o
    }
    fn gen(s: &mut Src) -> Self { Self { r: ga_(s), sp: g(s), lr: g(s), pc: g(s), cpsr: g(s) } }
    fn program_counter(&self) -> Vec<u8> { self.pc.to_le_bytes().to_vec() }
    fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
}
impl Layout for ga::aarch64::reg::AArch64CoreRegs {
    fn layout(&self) -> Vec<Fld> {
        let mut o = vec![];
        for (i, v) in self.x.iter().enumerate() { o.push(f(format!("x{}", i), v.to_le_bytes())) }
        o.push(f("sp", self.sp.to_le_bytes()));
        o.push(f("pc", self.pc.to_le_bytes()));
        o.push(f("cpsr", self.cpsr.to_le_bytes()));
        for (i, v) in self.v.iter().enumerate() { o.push(f(format!("v{}", i), v.to_le_bytes())) }
        o.push(f("fpsr", self.fpsr.to_le_bytes()));
        o.push(f("fpcr", self.fpcr.to_le_bytes()));
        o
    }
    fn gen(s: &mut Src) -> Self { Self { x: ga_(s), sp: g(s), pc: g(s), cpsr: g(s), v: ga_(s), fpcr: g(s), fpsr: g(s) } }
    fn program_counter(&self) -> Vec<u8> { self.pc.to_le_bytes().to_vec() }
    fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
}
// ---- MIPS, MSP430, RISC-V for two widths each
fn mips_layout<U: Copy>(r: &ga::mips::reg::MipsCoreRegs<U>, le: fn(U) -> Vec<u8>) -> Vec<Fld> {
    let mut o = vec![];
    for (i, v) in r.r.iter().enumerate() { o.push(f(format!("r{}", i), le(*v))) }
    for (n, v) in [("status", r.cp0.status), ("lo", r.lo), ("hi", r.hi), ("badvaddr", r.cp0.badvaddr), ("cause", r.cp0.cause), ("pc", r.pc)] { o.push(f(n, le(v))) }
    for (i, v) in r.fpu.r.iter().enumerate() { o.push(f(format!("f{}", i), le(*v))) }
    for (n, v) in [("fcsr", r.fpu.fcsr), ("fir", r.fpu.fir)] { o.push(f(n, le(v))) }
    o
}
fn mips_gen<U: Val + Default>(s: &mut Src) -> ga::mips::reg::MipsCoreRegs<U> {
    ga::mips::reg::MipsCoreRegs { r: ga_(s), lo: g(s), hi: g(s), pc: g(s), cp0: ga::mips::reg::MipsCp0Regs { status: g(s), badvaddr: g(s), cause: g(s) }, fpu: ga::mips::reg::MipsFpuRegs { r: ga_(s), fcsr: g(s), fir: g(s) } }
}
macro_rules! two { ($($u:ty)*) => { $(
    impl Layout for ga::mips::reg::MipsCoreRegs<$u> {
        fn layout(&self) -> Vec<Fld> { mips_layout(self, |v| v.to_le_bytes().to_vec()) }
        fn gen(s: &mut Src) -> Self { mips_gen(s) }
        fn program_counter(&self) -> Vec<u8> { self.pc.to_le_bytes().to_vec() }
        fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
    }
    impl Layout for ga::mips::reg::MipsCoreRegsWithDsp<$u> {
        fn layout(&self) -> Vec<Fld> {
            let mut o = self.core.layout();
            let d = &self.dsp;
            for (n, v) in [("hi1", d.hi1), ("lo1", d.lo1), ("hi2", d.hi2), ("lo2", d.lo2), ("hi3", d.hi3), ("lo3", d.lo3)] { o.push(f(n, v.to_le_bytes())) }
            o.push(f("dspctl", d.dspctl.to_le_bytes()));
            o.push(f("restart", d.restart.to_le_bytes()));
            o
        }
        fn gen(s: &mut Src) -> Self {
            let mut r = Self::default();
            r.core = mips_gen(s);
            let d = &mut r.dsp;
            for x in [&mut d.hi1, &mut d.lo1, &mut d.hi2, &mut d.lo2, &mut d.hi3, &mut d.lo3, &mut d.restart] { *x = g(s) }
            d.dspctl = g(s);
            r
        }
        fn program_counter(&self) -> Vec<u8> { self.core.pc.to_le_bytes().to_vec() }
        fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
    }
    impl Layout for ga::riscv::reg::RiscvCoreRegs<$u> {
        fn layout(&self) -> Vec<Fld> {
            let mut o: Vec<Fld> = self.x.iter().enumerate().map(|(i, v)| f(format!("x{}", i), v.to_le_bytes())).collect();
            o.push(f("pc", self.pc.to_le_bytes()));
            o
        }
        fn gen(s: &mut Src) -> Self { Self { x: ga_(s), pc: g(s) } }
        fn program_counter(&self) -> Vec<u8> { self.pc.to_le_bytes().to_vec() }
        fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
    }
)* } }
two!(u32 u64);
macro_rules! msp { ($($u:ty)*) => { $(
    impl Layout for ga::msp430::reg::Msp430Regs<$u> {
        const ZERO: bool = true;
        fn layout(&self) -> Vec<Fld> {
            let mut o = vec![f("pc", self.pc.to_le_bytes()), f("sp", self.sp.to_le_bytes()), f("sr", self.sr.to_le_bytes()), none("cg", std::mem::size_of::<$u>())];
            for (i, v) in self.r.iter().enumerate() { o.push(f(format!("r{}", i + 4), v.to_le_bytes())) }
            o
        }
        fn gen(s: &mut Src) -> Self { Self { pc: g(s), sp: g(s), sr: g(s), r: ga_(s) } }
        fn program_counter(&self) -> Vec<u8> { self.pc.to_le_bytes().to_vec() }
        fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
    }
)* } }
msp!(u16 u32);
// ---- PowerPC
impl Layout for ga::ppc::reg::PowerPcCommonRegs {
    fn layout(&self) -> Vec<Fld> {
        let mut o = vec![];
        for (i, v) in self.r.iter().enumerate() { o.push(f(format!("r{}", i), v.to_be_bytes())) }
        for (i, v) in self.f.iter().enumerate() { o.push(f(format!("f{}", i), v.to_be_bytes())) }
        for (n, v) in [("pc", self.pc), ("msr", self.msr), ("cr", self.cr), ("lr", self.lr), ("ctr", self.ctr), ("xer", self.xer), ("fpscr", self.fpscr)] { o.push(f(n, v.to_be_bytes())) }
        for (i, v) in self.vr.iter().enumerate() { o.push(f(format!("vr{}", i), v.to_be_bytes())) }
        for (n, v) in [("vscr", self.vscr), ("vrsave", self.vrsave)] { o.push(f(n, v.to_be_bytes())) }
        o
    }
    fn gen(s: &mut Src) -> Self {
        let fl: [u64; 32] = ga_(s);
        Self { r: ga_(s), f: fl.map(f64::from_bits), pc: g(s), msr: g(s), cr: g(s), lr: g(s), ctr: g(s), xer: g(s), fpscr: g(s), vr: ga_(s), vscr: g(s), vrsave: g(s) }
    }
    fn program_counter(&self) -> Vec<u8> { self.pc.to_le_bytes().to_vec() }
    fn pc_bytes(&self) -> Vec<u8> { self.pc().to_le_bytes().to_vec() }
}

fn encode<R: Registers>(r: &R) -> Vec<Option<u8>> {
    let mut o = vec![];
    r.gdb_serialize(|b| o.push(b));
    o
}
fn same(a: &[Fld], b: &[Fld]) -> Result<(), String> {
    for (x, y) in a.iter().zip(b) { if x.val != y.val { return Err(format!("{}: {:?} instead of {:?}", x.name, y.val, x.val)) } }
    Ok(())
}
/// the encoder against the table (P30) and the decoder against the encoder (P29)
fn block<L: Layout>(what: &str, s: &mut Src, c: &mut Ctx, order: bool) -> R {
    let r = L::gen(s);
    let lay = r.layout();
    let enc = match catch(|| encode(&r)) { Ok(e) => e, Err(p) => return fail("panic", format!("{}: encoding {:?} panics: {}", what, r, p)) };
    let defined: usize = lay.iter().map(|x| x.size).sum();
    c.note(|| format!("{} {:?}", what, r));
    c.work += 1;
    if order {
        let mut at = 0;
        for x in &lay {
            let got = enc.get(at..at + x.size);
            let want: Vec<Option<u8>> = match &x.val { Some(v) => v.iter().map(|b| Some(*b)).collect(), None => vec![None; x.size] };
            check!(got == Some(&want[..]), "layout", "{}: register {} at offset {} is encoded as {:?} instead of {:?}", what, x.name, at, got, want);
            at += x.size;
        }
        check!(enc.len() == defined + L::TRAIL && enc[defined..].iter().all(|b| b.is_none()), "trailing", "{}: after the last register {:?}", what, &enc[defined..]);
        c.nontrivial(hash_bytes(format!("{}{:?}", what, enc).as_bytes()));
        return Ok(());
    }
    check!(r.pc_bytes() == r.program_counter(), "pc", "{}: pc() is {:?}, the program counter field {:?}", what, r.pc_bytes(), r.program_counter());
    // decode the encoded form into registers that hold something else
    let fill = if L::ZERO { 0 } else { s.raw() as u8 };
    let bytes: Vec<u8> = enc.iter().map(|b| b.unwrap_or(fill)).collect();
    let mut d = if s.bool() { L::gen(s) } else { L::default() };
    match catch(|| { let ok = d.gdb_deserialize(&bytes); (d.clone(), ok) }) {
        Err(p) => return fail("panic", format!("{}: decoding {} panics: {}", what, show(&bytes), p)),
        Ok((d, ok)) => {
            check!(ok.is_ok(), "refused", "{}: the encoded form of {:?} is refused", what, r);
            if let Err(e) = same(&lay, &d.layout()) { return fail("round-trip", format!("{}: after a round trip {}", what, e)) }
            check!(encode(&d) == enc, "re-encode", "{}: encoding the decoded registers differs", what);
            check!(d.pc_bytes() == r.program_counter(), "pc", "{}: pc() is {:?} after decoding {:?}", what, d.pc_bytes(), r.program_counter());
        }
    }
    // arbitrary bytes of arbitrary lengths
    let full = enc.len();
    let n = match s.below(8) { 0 => full, 1 => defined, 2 => full.saturating_sub(1 + s.usize(8)), 3 => full + 1 + s.usize(8), 4 => s.usize(full + 1), 5 => full * 2, 6 => defined.saturating_sub(1), _ => s.usize(full * 3) };
    let mut raw = s.bytes_n(n);
    c.note(|| format!("block of {} bytes {}", n, show(&raw)));
    if s.bool() { // keep what must be zero
        let mut at = 0;
        for x in &lay { if x.val.is_none() { for b in raw.iter_mut().skip(at).take(x.size) { *b = 0 } } at += x.size; }
    }
    let mut d = L::gen(s);
    match catch(|| { let ok = d.gdb_deserialize(&raw); (d.clone(), ok) }) {
        Err(p) => return fail("panic", format!("{}: decoding {} bytes {} panics: {}", what, n, show(&raw), p)),
        Ok((d, ok)) => {
            check!(ok.is_err() || n >= defined, "short", "{}: a block of {} bytes was accepted, the registers need {}", what, n, defined);
            let zero_ok = !L::ZERO || { let mut at = 0; lay.iter().all(|x| { let z = x.val.is_some() || raw.iter().skip(at).take(x.size).all(|b| *b == 0); at += x.size; z }) };
            check!(ok.is_err() || zero_ok, "constant", "{}: a block with a changed constant register was accepted", what);
            check!(ok.is_ok() || n != full || !zero_ok, "complete-refused", "{}: a complete block {} was refused", what, show(&raw));
            if ok.is_ok() {
                let mut at = 0;
                for x in d.layout() {
                    if let Some(v) = &x.val { check!(v[..] == raw[at..at + x.size], "decode", "{}: {} decoded as {:?} from {:?}", what, x.name, v, &raw[at..at + x.size]); }
                    at += x.size;
                }
                let e = encode(&d);
                check!(e.iter().zip(&raw).all(|(a, b)| a.map_or(true, |a| a == *b)), "decode-encode", "{}: re-encoding {} differs", what, show(&raw));
            }
            c.label(if n < defined { "short block" } else if n > full { "long block" } else if ok.is_ok() { "arbitrary block accepted" } else { "arbitrary block refused" });
        }
    }
    c.nontrivial(mix(hash_bytes(&bytes), hash_bytes(&raw)));
    Ok(())
}

pub const ARCHS: &[&str] = &["x86", "x86-64", "ARM", "AArch64", "MIPS", "MIPS with DSP", "MIPS64", "MIPS64 with DSP", "MSP430", "MSP430X", "PowerPC", "RISC-V 32", "RISC-V 64"];
type Rg<A> = <A as Arch>::Registers;
fn one(i: usize, s: &mut Src, c: &mut Ctx, order: bool) -> R {
    c.label(ARCHS[i]);
    let w = ARCHS[i];
    match i {
        0 => block::<Rg<ga::x86::X86_SSE>>(w, s, c, order),
        1 => block::<Rg<ga::x86::X86_64_SSE>>(w, s, c, order),
        2 => block::<Rg<ga::arm::Armv4t>>(w, s, c, order),
        3 => block::<Rg<ga::aarch64::AArch64>>(w, s, c, order),
        4 => block::<Rg<ga::mips::Mips>>(w, s, c, order),
        5 => block::<Rg<ga::mips::MipsWithDsp>>(w, s, c, order),
        6 => block::<Rg<ga::mips::Mips64>>(w, s, c, order),
        7 => block::<Rg<ga::mips::Mips64WithDsp>>(w, s, c, order),
        8 => block::<Rg<ga::msp430::Msp430>>(w, s, c, order),
        9 => block::<Rg<ga::msp430::Msp430X>>(w, s, c, order),
        10 => block::<Rg<ga::ppc::PowerPcAltivec32<()>>>(w, s, c, order),
        11 => block::<Rg<ga::riscv::Riscv32>>(w, s, c, order),
        _ => block::<Rg<ga::riscv::Riscv64>>(w, s, c, order),
    }
}
pub fn p29(s: &mut Src, c: &mut Ctx) -> R { let i = (s.idx % 13) as usize; one(i, s, c, false) }

// ---------------------------------------------------------------------------------------- P30

fn fpu_name(r: &ga::x86::reg::id::X87FpuInternalRegId) -> &'static str {
    use ga::x86::reg::id::X87FpuInternalRegId::*;
    match r { Fctrl => "fctrl", Fstat => "fstat", Ftag => "ftag", Fiseg => "fiseg", Fioff => "fioff", Foseg => "foseg", Fooff => "fooff", Fop => "fop" }
}
fn seg_name(r: &ga::x86::reg::id::X86SegmentRegId) -> &'static str {
    use ga::x86::reg::id::X86SegmentRegId::*;
    match r { CS => "cs", SS => "ss", DS => "ds", ES => "es", FS => "fs", GS => "gs" }
}
fn n86(r: ga::x86::reg::id::X86CoreRegId) -> String {
    use ga::x86::reg::id::X86CoreRegId::*;
    match r {
        Eax => "eax".into(), Ecx => "ecx".into(), Edx => "edx".into(), Ebx => "ebx".into(), Esp => "esp".into(), Ebp => "ebp".into(), Esi => "esi".into(), Edi => "edi".into(),
        Eip => "eip".into(), Eflags => "eflags".into(), Segment(x) => seg_name(&x).into(), St(i) => format!("st{}", i), Fpu(x) => fpu_name(&x).into(), Xmm(i) => format!("xmm{}", i), Mxcsr => "mxcsr".into(),
        x => format!("{:?}", x),
    }
}
fn n64(r: ga::x86::reg::id::X86_64CoreRegId) -> String {
    use ga::x86::reg::id::X86_64CoreRegId::*;
    match r {
        Gpr(i) => ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"].get(i as usize).copied().unwrap_or("gpr?").into(),
        Rip => "rip".into(), Eflags => "eflags".into(), Segment(x) => seg_name(&x).into(), St(i) => format!("st{}", i), Fpu(x) => fpu_name(&x).into(), Xmm(i) => format!("xmm{}", i), Mxcsr => "mxcsr".into(),
        x => format!("{:?}", x),
    }
}
fn narm(r: ga::arm::reg::id::ArmCoreRegId) -> String {
    use ga::arm::reg::id::ArmCoreRegId::*;
    match r { Gpr(i) => format!("r{}", i), Sp => "sp".into(), Lr => "lr".into(), Pc => "pc".into(), Fpr(i) => format!("f{}", i), Fps => "fps".into(), Cpsr => "cpsr".into(), x => format!("{:?}", x) }
}
fn na64(r: ga::aarch64::reg::id::AArch64RegId) -> String {
    use ga::aarch64::reg::id::AArch64RegId as I;
    if r == I::FPSR { return "fpsr".into() }
    if r == I::FPCR { return "fpcr".into() }
    match r { I::X(i) => format!("x{}", i), I::Sp => "sp".into(), I::Pc => "pc".into(), I::Pstate => "cpsr".into(), I::V(i) => format!("v{}", i), I::System(x) => format!("sys{:04x}", x), x => format!("{:?}", x) }
}
fn nmips<U: std::fmt::Debug>(r: ga::mips::reg::id::MipsRegId<U>) -> String {
    use ga::mips::reg::id::MipsRegId::*;
    match r {
        Gpr(i) => format!("r{}", i), Fpr(i) => format!("f{}", i), Status => "status".into(), Lo => "lo".into(), Hi => "hi".into(), Badvaddr => "badvaddr".into(), Cause => "cause".into(), Pc => "pc".into(), Fcsr => "fcsr".into(), Fir => "fir".into(),
        Hi1 => "hi1".into(), Lo1 => "lo1".into(), Hi2 => "hi2".into(), Lo2 => "lo2".into(), Hi3 => "hi3".into(), Lo3 => "lo3".into(), Dspctl => "dspctl".into(), Restart => "restart".into(), x => format!("{:?}", x),
    }
}
fn nmsp<U: std::fmt::Debug>(r: ga::msp430::reg::id::Msp430RegId<U>) -> String {
    use ga::msp430::reg::id::Msp430RegId::*;
    match r { Pc => "pc".into(), Sp => "sp".into(), Sr => "sr".into(), Cg => "cg".into(), Gpr(i) => format!("r{}", i as u32 + 4), x => format!("{:?}", x) }
}
fn nrv<U: std::fmt::Debug>(r: ga::riscv::reg::id::RiscvRegId<U>) -> String {
    use ga::riscv::reg::id::RiscvRegId::*;
    match r { Gpr(i) => format!("x{}", i), Pc => "pc".into(), Fpr(i) => format!("f{}", i), Csr(i) => format!("csr{}", i), Priv => "priv".into(), x => format!("{:?}", x) }
}

/// what register number `id` must be: name and size
fn expect(lay: &[Fld], arch: usize, id: usize) -> Option<(String, usize)> {
    if let Some(x) = lay.get(id) { return Some((x.name.clone(), x.size)) }
    match arch {
        3 if (0x8000..=0xffff).contains(&id) => Some((match id { 0xda20 => "fpcr".into(), 0xda21 => "fpsr".into(), _ => format!("sys{:04x}", id) }, 8)),
        11 | 12 => { let w = if arch == 11 { 4 } else { 8 }; match id { 33..=64 => Some((format!("f{}", id - 33), w)), 65..=4160 => Some((format!("csr{}", id - 65), w)), 4161 => Some(("priv".into(), 1)), _ => None } }
        _ => None,
    }
}
fn ids<I: RegId>(arch: usize, lay: &[Fld], id: usize, name: fn(I) -> String) -> R {
    let got = match catch(|| I::from_raw_id(id)) { Ok(g) => g, Err(p) => return fail("panic", format!("{}: register number {} panics: {}", ARCHS[arch], id, p)) }.map(|(r, n)| (name(r), n.map_or(0, |n| n.get())));
    let want = expect(lay, arch, id);
    check!(got == want, "number", "{}: register number {} is {:?} instead of {:?}", ARCHS[arch], id, got, want);
    Ok(())
}
fn number(arch: usize, id: usize) -> R {
    fn lay<L: Layout>() -> Vec<Fld> { L::default().layout() }
    match arch {
        0 => ids(arch, &lay::<Rg<ga::x86::X86_SSE>>(), id, n86 as fn(<ga::x86::X86_SSE as Arch>::RegId) -> String),
        1 => ids(arch, &lay::<Rg<ga::x86::X86_64_SSE>>(), id, n64 as fn(<ga::x86::X86_64_SSE as Arch>::RegId) -> String),
        2 => ids(arch, &lay::<Rg<ga::arm::Armv4t>>(), id, narm as fn(<ga::arm::Armv4t as Arch>::RegId) -> String),
        3 => ids(arch, &lay::<Rg<ga::aarch64::AArch64>>(), id, na64 as fn(<ga::aarch64::AArch64 as Arch>::RegId) -> String),
        // the numbering without DSP registers is the same one
        4 => ids(arch, &lay::<Rg<ga::mips::MipsWithDsp>>(), id, nmips as fn(<ga::mips::Mips as Arch>::RegId) -> String),
        5 => ids(arch, &lay::<Rg<ga::mips::MipsWithDsp>>(), id, nmips as fn(<ga::mips::MipsWithDsp as Arch>::RegId) -> String),
        6 => ids(arch, &lay::<Rg<ga::mips::Mips64WithDsp>>(), id, nmips as fn(<ga::mips::Mips64 as Arch>::RegId) -> String),
        7 => ids(arch, &lay::<Rg<ga::mips::Mips64WithDsp>>(), id, nmips as fn(<ga::mips::Mips64WithDsp as Arch>::RegId) -> String),
        8 => ids(arch, &lay::<Rg<ga::msp430::Msp430>>(), id, nmsp as fn(<ga::msp430::Msp430 as Arch>::RegId) -> String),
        9 => ids(arch, &lay::<Rg<ga::msp430::Msp430X>>(), id, nmsp as fn(<ga::msp430::Msp430X as Arch>::RegId) -> String),
        10 => { check!(<<ga::ppc::PowerPcAltivec32<()> as Arch>::RegId>::from_raw_id(id).is_none(), "number", "the empty register numbering maps {}", id); Ok(()) }
        11 => ids(arch, &lay::<Rg<ga::riscv::Riscv32>>(), id, nrv as fn(<ga::riscv::Riscv32 as Arch>::RegId) -> String),
        _ => ids(arch, &lay::<Rg<ga::riscv::Riscv64>>(), id, nrv as fn(<ga::riscv::Riscv64 as Arch>::RegId) -> String),
    }
}

/// register elements of a target description: (name, bits, number)
fn xml_regs(x: &str) -> Vec<(String, usize, usize)> {
    let mut o = vec![];
    let mut next = 0;
    let mut rest = x;
    while let Some(i) = rest.find('<') {
        rest = &rest[i..];
        if let Some(r) = rest.strip_prefix("<!--") { rest = r.find("-->").map_or("", |j| &r[j..]); continue }
        let end = rest.find('>').unwrap_or(rest.len());
        let el = &rest[1..end];
        if el.starts_with("reg ") || el.starts_with("reg\n") {
            let attr = |k: &str| { let p = format!(" {}=\"", k); el.find(&p).map(|i| { let v = &el[i + p.len()..]; v[..v.find('"').unwrap_or(0)].to_string() }) };
            if let Some(n) = attr("regnum").and_then(|n| n.parse().ok()) { next = n }
            o.push((attr("name").unwrap_or_default(), attr("bitsize").and_then(|b| b.parse().ok()).unwrap_or(0), next));
            next += 1;
        }
        rest = &rest[end..];
    }
    o
}
fn description(arch: usize) -> R {
    let (xml, name): (Option<&str>, &str) = match arch {
        0 => (ga::x86::X86_SSE::target_description_xml(), "i386:intel"),
        1 => (ga::x86::X86_64_SSE::target_description_xml(), "i386:x86-64"),
        2 => (ga::arm::Armv4t::target_description_xml(), "armv4t"),
        3 => (ga::aarch64::AArch64::target_description_xml(), "aarch64"),
        4 => (ga::mips::Mips::target_description_xml(), "mips"),
        5 => (ga::mips::MipsWithDsp::target_description_xml(), "mips"),
        6 => (ga::mips::Mips64::target_description_xml(), ""),
        7 => (ga::mips::Mips64WithDsp::target_description_xml(), ""),
        8 => (ga::msp430::Msp430::target_description_xml(), "msp430"),
        9 => (ga::msp430::Msp430X::target_description_xml(), "msp430x"),
        10 => (ga::ppc::PowerPcAltivec32::<()>::target_description_xml(), "powerpc:common"),
        11 => (ga::riscv::Riscv32::target_description_xml(), ""),
        _ => (ga::riscv::Riscv64::target_description_xml(), ""),
    };
    let x = match xml { None => { check!(arch == 6 || arch == 7, "description", "{}: no description", ARCHS[arch]); return Ok(()) } Some(x) => x };
    if let Some(i) = x.find("<architecture>") {
        let a = &x[i + 14..];
        let a = &a[..a.find('<').unwrap_or(0)];
        check!(name.is_empty() || a == name, "description", "{}: the description says {}", ARCHS[arch], a);
    } else { check!(name.is_empty(), "description", "{}: no architecture in the description", ARCHS[arch]) }
    let feats = |f: &[&str]| f.iter().all(|f| x.contains(&format!("\"{}\"", f)));
    let want: &[&str] = match arch { 0 | 1 => &["org.gnu.gdb.i386.sse"], 3 => &["org.gnu.gdb.aarch64.core", "org.gnu.gdb.aarch64.fpu"], 5 => &["org.gnu.gdb.mips.dsp"], 10 => &["org.gnu.gdb.power.core", "org.gnu.gdb.power.fpu", "org.gnu.gdb.power.altivec"], 11 | 12 => &["org.gnu.gdb.riscv.cpu"], _ => &[] };
    check!(feats(want), "description", "{}: the description lacks one of {:?}", ARCHS[arch], want);
    let regs = xml_regs(x);
    let lay = match arch { 3 => ga::aarch64::reg::AArch64CoreRegs::default().layout(), 11 => Rg::<ga::riscv::Riscv32>::default().layout(), 12 => Rg::<ga::riscv::Riscv64>::default().layout(), _ => { check!(regs.is_empty(), "description", "{}: registers in the description", ARCHS[arch]); return Ok(()) } };
    let abi = ["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "fp", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6", "pc"];
    for (i, l) in lay.iter().enumerate() {
        let want = (if arch == 3 { l.name.clone() } else { abi[i].into() }, l.size * 8, i);
        check!(regs.get(i) == Some(&want), "description-order", "{}: register {} of the description is {:?} instead of {:?}", ARCHS[arch], i, regs.get(i), want);
    }
    if arch != 3 { check!(regs.len() == lay.len(), "description-extra", "{}: {} registers described, {} in the block", ARCHS[arch], regs.len(), lay.len()); return Ok(()) }
    for (n, bits, num) in &regs[lay.len()..] {
        let want = SYS.iter().find(|x| x.0.eq_ignore_ascii_case(n));
        check!(want.is_some_and(|w| w.2 as usize == *num) && *bits == 64, "description-system", "{} is described as number {:#x} with {} bits, its encoding is {:x?}", n, num, bits, want.map(|w| w.2));
    }
    for (n, id, enc) in SYS {
        check!(*id == ga::aarch64::reg::id::AArch64RegId::System(*enc), "system-constant", "the constant {} is {:?} instead of System({:#x})", n, id, enc);
        let raw = <ga::aarch64::reg::id::AArch64RegId as RegId>::from_raw_id(*enc as usize);
        check!(raw.map(|x| x.0) == Some(*id), "system-number", "{:#x} maps to {:?} instead of {}", enc, raw, n);
        check!(regs.iter().any(|r| r.0.eq_ignore_ascii_case(n) && r.2 == *enc as usize), "description-missing", "{} is not described", n);
    }
    Ok(())
}

pub fn p30(s: &mut Src, c: &mut Ctx) -> R {
    let arch = (s.idx % 13) as usize;
    one(arch, s, c, true)?;
    // numbers: a window that walks over all 17 bit numbers, and arbitrary ones
    let w = (s.idx / 13 % 2048) as usize * 64;
    if w < 1 << 17 { for id in w..w + 64 { number(arch, id)? } c.note(|| format!("numbers {}..{}", w, w + 64)); c.work += 64 }
    for _ in 0..8 { let id = match s.below(4) { 0 => s.below(128), 1 => s.below(5000), 2 => (s.below(1 << 17)) | s.below(4) << s.range(16, 60), _ => s.num(64) } as usize; number(arch, id)? }
    if s.idx % 512 < 13 { description(arch)?; c.label("description compared") }
    Ok(())
}
