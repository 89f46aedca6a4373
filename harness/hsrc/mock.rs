//! A recording mock target with every feature individually switchable, and a recording mock
//! connection with fault injection.

use crate::engine::{mix, Src};
use crate::tarch::*;
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::conn::Connection;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::lldb_register_info_override::*;
use gdbstub::target::ext::monitor_cmd::*;
use gdbstub::target::ext::section_offsets::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::ext::*;
use gdbstub::target::{Target, TargetError, TargetResult};
use managed::ManagedSlice;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TErr(pub u32);
impl std::fmt::Display for TErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "terr{}", self.0) }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct CErr(pub u32);
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "cerr{}", self.0) }
}

macro_rules! feats {
    ($($n:ident)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum F { $($n),* }
        pub const FEATS: &[(F, &str)] = &[$((F::$n, stringify!($n))),*];
    }
}
feats! { Multi Guard NoAck XUp RStub Rle UseXml UseLldb Bp Sw Hw Watch Monitor Ext Aslr Env Shell Wdir CurPid SecOff Trace TraceSrc XmlOvr LldbOvr MemMap Catch HostIo HOpen HClose HPread HPwrite HFstat HUnlink HReadlink HSetfs ExecFile Auxv Svr4 Sra Resume Step Range RCont RStep ThrExtra }

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Cfg(pub u64);
impl std::fmt::Debug for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let v: Vec<&str> = FEATS.iter().filter(|(x, _)| self.on(*x)).map(|x| x.1).collect();
        write!(f, "[{}]", v.join(" "))
    }
}
impl Cfg {
    pub fn all() -> Cfg { Cfg((1u64 << FEATS.len()) - 1) }
    pub fn on(&self, f: F) -> bool { self.0 >> (f as u8) & 1 == 1 }
    pub fn set(&mut self, f: F, v: bool) { if v { self.0 |= 1 << f as u8 } else { self.0 &= !(1 << f as u8) } }
    pub fn with(mut self, f: F, v: bool) -> Cfg { self.set(f, v); self }
    // effective features (nested ones need their parents)
    pub fn sw(&self) -> bool { self.on(F::Bp) && self.on(F::Sw) }
    pub fn hw(&self) -> bool { self.on(F::Bp) && self.on(F::Hw) }
    pub fn watch(&self) -> bool { self.on(F::Bp) && self.on(F::Watch) }
    pub fn multi(&self) -> bool { self.on(F::Multi) }
    pub fn resume(&self) -> bool { self.on(F::Resume) }
    pub fn step(&self) -> bool { self.resume() && self.on(F::Step) }
    pub fn range(&self) -> bool { self.resume() && self.on(F::Range) }
    pub fn rcont(&self) -> bool { self.resume() && self.on(F::RCont) }
    pub fn rstep(&self) -> bool { self.resume() && self.on(F::RStep) }
    pub fn ext(&self, f: F) -> bool { self.on(F::Ext) && self.on(f) }
    pub fn hio(&self, f: F) -> bool { self.on(F::HostIo) && self.on(f) }
    pub fn src(&self) -> bool { self.on(F::Trace) && self.on(F::TraceSrc) }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum E { NonFatal, Errno(u8), Io(Option<i32>), Fatal(u32), H(u32) }
impl E {
    /// the error number reported to the client
    pub fn code(&self) -> Option<u8> {
        match self {
            E::NonFatal | E::Io(None) => Some(121),
            E::Errno(n) => Some(*n),
            E::Io(Some(n)) => Some(*n as u8),
            E::Fatal(_) | E::H(_) => None,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BpK { Sw, Hw, W, R, A }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Obj { Xml, MemMap, ExecFile, Auxv, Svr4 }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Act {
    Regs(Vec<u8>),
    Mem { base: Option<u64>, off: u128, len: u64 },
    Expr(Vec<u8>),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TpSrc { pub num: usize, pub addr: u128, pub kind: u8, pub start: u32, pub slen: u32, pub bytes: Vec<u8> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TpDef { pub num: usize, pub addr: u128, pub enabled: bool, pub step: u64, pub pass: u64 }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tp { pub def: TpDef, pub acts: Vec<Act>, pub srcs: Vec<TpSrc> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TStat { Running, NotRunning, NotRun, Stop(Option<Vec<u8>>), Full, Disc, Pass(usize), Error(Vec<u8>, usize), Unknown }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TExpl { Frames(usize), Created(usize), Size(usize), Free(usize), Circular(bool), Disc(bool), Other(String) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FReq { Select(u64), Pc(u128), Hit(usize), Between(u128, u128), Outside(u128, u128) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FDesc { Num(u64), Hit(usize) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TItem { Def(TpDef), Act(usize, u128, Act), Src(TpSrc) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum EStep { Action, Source, Next(usize, u128), Done }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Offs { Sec(u128, u128, Option<u128>), Seg(u128, Option<u128>) }

pub type T = Option<usize>; // None = the single thread

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Q { Pid, Threads, Late }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum K {
    ReadRegs(T), WriteRegs(T, Vec<Option<u8>>),
    ReadReg(T, usize, usize), WriteReg(T, usize, Vec<u8>),
    ReadMem(T, u128, usize), WriteMem(T, u128, Vec<u8>),
    Alive(usize),
    SResume(Option<u8>), SStep(Option<u8>), SRange(u128, u128),
    MResume, MClear, MCont(usize, Option<u8>), MStep(usize, Option<u8>), MRange(usize, u128, u128),
    RCont, RStep(T),
    Bp { add: bool, kind: BpK, addr: u128, arg: u128 },
    Monitor(Vec<u8>),
    Run(Option<Vec<u8>>, Vec<Vec<u8>>), Attach(usize), QueryAtt(usize), Kill(Option<usize>), Restart, OnStart,
    Aslr(bool), SetEnv(Vec<u8>, Option<Vec<u8>>), RmEnv(Vec<u8>), ResetEnv, Shell(bool), Wdir(Option<Vec<u8>>),
    SecOff,
    Xfer { obj: Obj, pid: Option<usize>, annex: Vec<u8>, off: u64, len: usize, room: usize },
    Lldb(usize),
    CatchOn(Option<Vec<u128>>), CatchOff,
    HOpen(Vec<u8>, u32, u32), HClose(u32), HPread { fd: u32, count: usize, off: u64, room: usize }, HPwrite(u32, u128, Vec<u8>),
    HFstat(u32), HUnlink(Vec<u8>), HReadlink(Vec<u8>), HSetfs(Option<usize>),
    ThrExtra(usize),
    /// a failed question about the process or the threads
    Query(Q),
    TInit, TBegin(TpDef), TCont(usize, Act), TComplete(usize), TStatus(usize, u128), TEnumStart(Option<usize>), TEnumAct(usize, u64), TEnumSrc(usize, u64),
    TShape(bool), TSize(Option<u64>), TBufReq(u64, usize), TExpStatus, TExpInfo, TStart, TStop, TFrame(FReq), TAttachSrc(TpSrc),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Pend, Unit, Bool(bool), Num(u128), Bytes(Vec<u8>), Chunks(Vec<Vec<u8>>), Regs(Vec<Option<u8>>), Err(E),
    Offs(Offs), Lldb(Option<LReg>), Stat(Vec<u64>), TStat(Vec<TStat>, bool), TExpl(Vec<TExpl>, Option<E>), TpStat(u64, u64), Frame(Vec<FDesc>), Enum(Option<TItem>, EStep),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Call { pub k: K, pub out: Out }
impl Call {
    pub fn err(&self) -> Option<&E> {
        match &self.out { Out::Err(e) => Some(e), _ => None }
    }
}

/// behaviour parameters of the target
#[derive(Debug, Clone, Default)]
pub struct Beh {
    pub salt: u64,
    /// error rates in 1/1024
    pub nf: u32,
    pub fatal: u32,
    pub memmode: u8,
    /// accessible memory: first and last address
    pub lo: u128,
    pub hi: u128,
    pub threads: Vec<usize>,
    pub pid: usize,
    pub regmode: u8,
    /// lengths of the transferable objects
    pub objlen: [usize; 5],
    pub objmode: u8,
    pub far: u64,
    pub lldb_salt: u64,
    /// how many bytes the console prints: profile
    pub mon: u8,
    pub src_first: bool,
    /// inject an error at exactly this fallible call
    pub err_at: Option<(u64, E)>,
    pub preload: Vec<Tp>,
    pub max_calls: u64,
    /// the target answers liveness from its thread list and ignores the start of extended mode,
    /// as the documented default implementations do
    pub plain: bool,
    /// the target sometimes claims to have stored more bytes than there was room for
    pub lies: bool,
}

#[derive(Default)]
pub struct TState {
    pub cfg: u64,
    pub b: Beh,
    pub log: Vec<Call>,
    pub n: u64,
    pub tps: Vec<Tp>,
    pub budget: u64,
    /// current process (changed by attach)
    pub pid: usize,
    pub bits: u32,
    objs: RefCell<std::collections::HashMap<(usize, u64), Vec<u8>>>,
    /// the connection of the session, to see what has been sent at some moment
    pub wire: Option<Cs>,
    /// console: how much text was printed when a flush returned, and what had been sent (and flushed) by then
    pub marks: Vec<(usize, Vec<u8>)>,
}
pub type St = Rc<RefCell<TState>>;

pub fn new_state(cfg: Cfg, b: Beh, bits: u32) -> St {
    let max = if b.max_calls == 0 { 200_000 } else { b.max_calls };
    Rc::new(RefCell::new(TState { cfg: cfg.0, pid: b.pid, tps: b.preload.clone(), b, log: vec![], n: 0, budget: max, bits, objs: Default::default(), wire: None, marks: vec![] }))
}

fn gen_bytes(salt: u64, mode: u8, i: u128) -> u8 {
    let h = mix(salt, (i as u64) ^ ((i >> 64) as u64).rotate_left(9));
    const SP: &[u8] = b"#$}*+-\x03,;:|0\x00\xff\x7f ";
    match mode % 8 {
        0 => h as u8,
        1 => (salt >> 8) as u8,
        2 => mix(salt, (i >> 3) as u64) as u8,
        3 => SP[h as usize % SP.len()],
        4 => SP[mix(salt, (i / 9) as u64) as usize % SP.len()],
        5 => i as u8,
        6 => { let blk = mix(salt, (i >> 5) as u64); if blk & 1 == 0 { 0 } else { h as u8 } }
        _ => b'a' + (mix(salt, (i / 5) as u64) % 26) as u8,
    }
}

impl TState {
    pub fn mem(&self, t: T, addr: u128) -> u8 {
        gen_bytes(mix(self.b.salt, 77 ^ t.unwrap_or(0) as u64), self.b.memmode, addr)
    }
    pub fn obj(&self, o: Obj, pid: Option<usize>, annex: &[u8]) -> Vec<u8> {
        let i = o as usize;
        let s = mix(mix(self.b.salt, 900 + i as u64), pid.unwrap_or(0) as u64 ^ crate::engine::hash_bytes(annex));
        self.objs.borrow_mut().entry((i, s)).or_insert_with(|| (0..self.b.objlen[i]).map(|k| gen_bytes(s, self.b.objmode.wrapping_add(i as u8), k as u128)).collect()).clone()
    }
    /// a recoverable error after something has already been handed to the stub
    fn late(&self, nothing: bool) -> Option<E> { (self.b.nf > 0 && !nothing && self.h(97) % 6 == 0).then(|| E::Errno(errno(self.h(98)))) }
    /// the count a target claims for the `n` bytes it stored in a buffer with this much room
    fn count(&self, n: usize, room: usize) -> usize {
        if !self.b.lies || self.h(96) % 5 != 0 { return n }
        match self.h(95) % 4 { 0 => room + 1, 1 => usize::MAX, 2 => room * 2 + 7, _ => room + (self.h(94) % 300) as usize }
    }
    pub fn h(&self, k: u64) -> u64 { mix(mix(self.b.salt, self.n), k) }
    fn val(&self, k: u64, bits: u32) -> u64 {
        let h = self.h(k);
        let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        (match h % 5 { 0 => 0, 1 => h >> 8 & 0xff, 2 => u64::MAX - (h >> 60), 3 => (h >> 8) >> (h >> 3 & 31), _ => h.rotate_left(13) }) & m
    }
}

/// error numbers: the ones real targets use as often as all the others
fn errno(h: u64) -> u8 {
    const U: &[u8] = &[1, 2, 3, 4, 5, 9, 11, 12, 13, 14, 16, 17, 22, 28, 30, 95, 110, 121, 0, 255];
    if h >> 8 & 1 == 0 { U[(h >> 9) as usize % U.len()] } else { h as u8 }
}

#[derive(Clone, Copy, PartialEq)]
enum EK { Any, FatalOnly, Host }

pub struct MockTarget<U> {
    pub st: St,
    pub tstate: TracepointEnumerateState<U>,
}
impl<U: UFull> MockTarget<U> {
    pub fn new(st: St) -> Self { MockTarget { st, tstate: Default::default() } }
    fn on(&self, f: F) -> bool { Cfg(self.st.borrow().cfg).on(f) }
    fn call<R>(&self, k: K, ek: EK, ok: impl FnOnce(&mut TState) -> (Out, R)) -> Result<R, E> {
        let mut st = self.st.borrow_mut();
        if st.budget == 0 { drop(st); panic!("runaway: the stub does not stop calling the target"); }
        st.budget -= 1;
        st.n += 1;
        let n = st.n;
        let h = mix(st.b.salt ^ 0x5151, n);
        let e = match &st.b.err_at {
            Some((at, e)) if *at == n => Some(e.clone()),
            _ => {
                if (h % 1024) < st.b.fatal as u64 { Some(E::Fatal((h >> 40) as u32)) }
                else if ((h >> 10) % 1024) < st.b.nf as u64 && ek != EK::FatalOnly {
                    Some(match (h >> 20) % 4 {
                        0 => E::NonFatal,
                        1 => E::Errno(errno(h >> 32)),
                        2 => E::Io(Some(if h >> 63 == 0 { errno(h >> 32).max(1) as i32 } else { 1 + ((h >> 32) % 300) as i32 })),
                        _ => E::Io(None),
                    })
                } else { None }
            }
        };
        let e = match (e, ek) {
            (Some(E::Fatal(x)), _) => Some(E::Fatal(x)),
            (Some(E::H(x)), EK::Host) => Some(E::H(x)),
            (Some(_), EK::Host) => Some(E::H(HERR[(h >> 33) as usize % HERR.len()])),
            (Some(_), EK::FatalOnly) => None,
            (Some(E::H(_)), _) => Some(E::NonFatal),
            (Some(e), EK::Any) => Some(e),
            (None, _) => None,
        };
        if let Some(e) = e {
            st.log.push(Call { k, out: Out::Err(e.clone()) });
            return Err(e);
        }
        let at = st.log.len();
        if at > 200_000 { drop(st); panic!("runaway: the stub does not stop calling the target") }
        st.log.push(Call { k, out: Out::Pend });
        let (out, r) = ok(&mut st);
        st.log[at].out = out;
        Ok(r)
    }
    /// a question the stub may ask at any time and any number of times: recorded only when it fails, and it
    /// fails depending on what was asked for before, not on how often the question was put
    fn query(&self, q: Q) -> Result<(), TErr> {
        let mut st = self.st.borrow_mut();
        let h = mix(st.b.salt ^ 0x9e11 ^ ((q as u64) << 40), st.n);
        if st.b.plain || h % 1024 >= st.b.fatal as u64 { return Ok(()) }
        let e = E::Fatal((h >> 32) as u32);
        st.log.push(Call { k: K::Query(q), out: Out::Err(e.clone()) });
        Err(fe(e))
    }
    /// a fatal failure after everything was handed to the stub
    fn after(&self) -> TargetResult<(), Self> { self.query(Q::Late).map_err(TargetError::Fatal) }
    /// calls whose answer needs callbacks into the stub: decide first, then call back unborrowed
    fn unit(&self, k: K) -> TargetResult<(), Self> { self.call(k, EK::Any, |_| (Out::Unit, ())).map_err(te) }
    fn funit(&self, k: K) -> Result<(), TErr> { self.call(k, EK::FatalOnly, |_| (Out::Unit, ())).map_err(fe) }
    fn do_read_mem(&self, t: T, a: U, data: &mut [u8]) -> TargetResult<usize, Self> {
        let addr = a.to128();
        self.call_opt(K::ReadMem(t, addr, data.len()), |st| {
            let max = (1u128 << st.bits) - 1;
            let (lo, hi) = (st.b.lo, st.b.hi.min(max));
            let n = if addr < lo || addr > hi { 0 } else { (hi - addr + 1).min(data.len() as u128) as usize };
            if n == 0 && !data.is_empty() {
                let h = mix(st.b.salt, 4242);
                // the usual way to say "nothing here" is an error; a zero count is legal too
                if h % 4 != 0 {
                    return Err(match h >> 8 & 1 { 0 => E::NonFatal, _ => E::Errno(errno(h >> 16)) });
                }
            }
            for (i, d) in data.iter_mut().enumerate() {
                *d = if i < n { st.mem(t, addr + i as u128) } else { 0xee };
            }
            Ok((Out::Bytes(data[..n].to_vec()), st.count(n, data.len())))
        }).map_err(te)
    }
    fn call_opt<R>(&self, k: K, ok: impl FnOnce(&mut TState) -> Result<(Out, R), E>) -> Result<R, E> {
        let k2 = k.clone();
        let r = self.call(k, EK::Any, |st| match ok(st) {
            Ok((o, r)) => (o, Ok(r)),
            Err(e) => (Out::Err(e.clone()), Err(e)),
        });
        let _ = k2;
        r?
    }
    fn do_write_mem(&self, t: T, a: U, data: &[u8]) -> TargetResult<(), Self> {
        self.unit(K::WriteMem(t, a.to128(), data.to_vec()))
    }
    fn do_read_regs(&self, t: T, regs: &mut VRegs<U>) -> TargetResult<(), Self> {
        let v = self.call(K::ReadRegs(t), EK::Any, |st| {
            let n = REG_LEN.with(|r| r.get());
            let s = mix(st.b.salt, (t.unwrap_or(0) as u64).wrapping_add(31 + st.n * 1000));
            let v: Vec<Option<u8>> = (0..n).map(|i| {
                let un = match st.b.regmode % 4 { 0 => false, 1 => mix(s, i as u64 / 4) % 4 == 0, 2 => true, _ => mix(s, i as u64) % 9 == 0 };
                if un { None } else { Some(gen_bytes(s, st.b.regmode / 4, i as u128)) }
            }).collect();
            (Out::Regs(v.clone()), v)
        }).map_err(te)?;
        regs.bytes = v;
        Ok(())
    }
    fn do_read_reg(&self, t: T, id: TReg, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.call(K::ReadReg(t, id.0, buf.len()), EK::Any, |st| {
            let h = st.h(3);
            let want = reg_info(id.0).flatten();
            let n = match want {
                Some(sz) => match h % 8 { 0 => 0, 1 => (h >> 8) as usize % (sz + 1), _ => sz },
                None => match h % 8 { 0 => 0, 1 => buf.len(), 2 => (h >> 8) as usize % (buf.len() + 1), _ => 1 + (h >> 8) as usize % 40 },
            }.min(buf.len());
            let s = mix(st.b.salt, h);
            for (i, b) in buf.iter_mut().enumerate() {
                *b = if i < n { gen_bytes(s, st.b.regmode / 4, i as u128) } else { 0xee };
            }
            (Out::Bytes(buf[..n].to_vec()), st.count(n, buf.len()))
        }).map_err(te)
    }
    fn bp(&self, add: bool, kind: BpK, addr: U, arg: u128) -> TargetResult<bool, Self> {
        self.call(K::Bp { add, kind, addr: addr.to128(), arg }, EK::Any, |st| {
            let b = st.h(5) % 4 != 0;
            (Out::Bool(b), b)
        }).map_err(te)
    }
    fn xfer(&self, obj: Obj, pid: Option<usize>, annex: &[u8], off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.call(K::Xfer { obj, pid, annex: annex.to_vec(), off, len, room: buf.len() }, EK::Any, |st| {
            let data = st.obj(obj, pid, annex);
            // "far" objects repeat: offsets beyond any real object still have contents
            let off = if st.b.far > 0 { off % st.b.far } else { off };
            let start = (off.min(data.len() as u64)) as usize;
            let n = (data.len() - start).min(len).min(buf.len());
            // a target may return less than asked for
            let n = if n > 1 && st.h(6) % 4 == 0 { 1 + st.h(7) as usize % n } else { n };
            buf[..n].copy_from_slice(&data[start..start + n]);
            for b in buf[n..].iter_mut() { *b = 0xee }
            (Out::Bytes(data[start..start + n].to_vec()), st.count(n, buf.len()))
        }).map_err(te)
    }
    fn tp_next(st: &TState, num: usize, addr: u128, after: u8) -> EStep {
        // after: 0 = definition reported, 1 = all actions reported, 2 = all sources reported
        let Some(i) = st.tps.iter().position(|t| t.def.num == num) else { return EStep::Done };
        let _ = addr;
        let t = &st.tps[i];
        let src_ok = Cfg(st.cfg).src() && !t.srcs.is_empty();
        let act_ok = !t.acts.is_empty();
        let order: [u8; 2] = if st.b.src_first { [2, 1] } else { [1, 2] };
        let pos = match after { 0 => 0, a => order.iter().position(|x| *x == a).unwrap() + 1 };
        for &k in &order[pos..] {
            if k == 1 && act_ok { return EStep::Action }
            if k == 2 && src_ok { return EStep::Source }
        }
        match st.tps.get(i + 1) { Some(n) => EStep::Next(n.def.num, n.def.addr), None => EStep::Done }
    }
}
pub const HERR: &[u32] = &[1, 2, 4, 9, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 91, 9999];

/// is this the build with the standard library and an allocator?
pub const STD: bool = cfg!(feature = "std");

fn te(e: E) -> TargetError<TErr> {
    match e {
        E::NonFatal | E::H(_) => TargetError::NonFatal,
        E::Errno(n) => TargetError::Errno(n),
        #[cfg(feature = "std")]
        E::Io(Some(n)) => TargetError::Io(std::io::Error::from_raw_os_error(n)),
        #[cfg(feature = "std")]
        E::Io(None) => TargetError::Io(std::io::Error::new(std::io::ErrorKind::Other, "x")),
        // what these mean, where they do not exist
        #[cfg(not(feature = "std"))]
        E::Io(n) => TargetError::Errno(n.unwrap_or(121) as u8),
        E::Fatal(n) => TargetError::Fatal(TErr(n)),
    }
}
fn fe(e: E) -> TErr { match e { E::Fatal(n) => TErr(n), _ => unreachable!() } }
fn he(e: E) -> HostIoError<TErr> {
    use HostIoErrno::*;
    match e {
        E::Fatal(n) => HostIoError::Fatal(TErr(n)),
        E::H(n) => HostIoError::Errno(match n {
            1 => EPERM, 2 => ENOENT, 4 => EINTR, 9 => EBADF, 13 => EACCES, 14 => EFAULT, 16 => EBUSY, 17 => EEXIST, 19 => ENODEV,
            20 => ENOTDIR, 21 => EISDIR, 22 => EINVAL, 23 => ENFILE, 24 => EMFILE, 27 => EFBIG, 28 => ENOSPC, 29 => ESPIPE, 30 => EROFS,
            91 => ENAMETOOLONG, _ => EUNKNOWN,
        }),
        _ => unreachable!(),
    }
}
fn pid(p: usize) -> Pid { Pid::new(p).unwrap() }
fn sig(s: Option<Signal>) -> Option<u8> { s.map(|s| s.0) }

macro_rules! sup {
    ($self:ident, $($f:ident)|+) => { if $($self.on(F::$f))&&+ { Some($self) } else { None } };
}

pub trait UFull: UInt + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes {}
impl<U: UInt + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes> UFull for U {}

impl<U: UFull> Target for MockTarget<U> {
    type Arch = TA<U>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, TA<U>, TErr> {
        if self.on(F::Multi) { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) }
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { self.on(F::Guard) }
    fn use_no_ack_mode(&self) -> bool { self.on(F::NoAck) }
    fn use_x_upcase_packet(&self) -> bool { self.on(F::XUp) }
    fn use_resume_stub(&self) -> bool { self.on(F::RStub) }
    fn use_rle(&self) -> bool { self.on(F::Rle) }
    fn use_target_description_xml(&self) -> bool { self.on(F::UseXml) }
    fn use_lldb_register_info(&self) -> bool { self.on(F::UseLldb) }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { sup!(self, Bp) }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> { sup!(self, Monitor) }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> { sup!(self, Ext) }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> { sup!(self, SecOff) }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> { sup!(self, Trace) }
    fn support_target_description_xml_override(&mut self) -> Option<target_description_xml_override::TargetDescriptionXmlOverrideOps<'_, Self>> { sup!(self, XmlOvr) }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> { sup!(self, LldbOvr) }
    fn support_memory_map(&mut self) -> Option<memory_map::MemoryMapOps<'_, Self>> { sup!(self, MemMap) }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> { sup!(self, Catch) }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> { sup!(self, HostIo) }
    fn support_exec_file(&mut self) -> Option<exec_file::ExecFileOps<'_, Self>> { sup!(self, ExecFile) }
    fn support_auxv(&mut self) -> Option<auxv::AuxvOps<'_, Self>> { sup!(self, Auxv) }
    fn support_libraries_svr4(&mut self) -> Option<libraries::LibrariesSvr4Ops<'_, Self>> { sup!(self, Svr4) }
}

impl<U: UFull> SingleThreadBase for MockTarget<U> {
    fn read_registers(&mut self, regs: &mut VRegs<U>) -> TargetResult<(), Self> { self.do_read_regs(None, regs) }
    fn write_registers(&mut self, regs: &VRegs<U>) -> TargetResult<(), Self> { self.unit(K::WriteRegs(None, regs.bytes.clone())) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> { sup!(self, Sra) }
    fn read_addrs(&mut self, a: U, data: &mut [u8]) -> TargetResult<usize, Self> { self.do_read_mem(None, a, data) }
    fn write_addrs(&mut self, a: U, data: &[u8]) -> TargetResult<(), Self> { self.do_write_mem(None, a, data) }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> { sup!(self, Resume) }
}
impl<U: UFull> MultiThreadBase for MockTarget<U> {
    fn read_registers(&mut self, regs: &mut VRegs<U>, t: Tid) -> TargetResult<(), Self> { self.do_read_regs(Some(t.get()), regs) }
    fn write_registers(&mut self, regs: &VRegs<U>, t: Tid) -> TargetResult<(), Self> { self.unit(K::WriteRegs(Some(t.get()), regs.bytes.clone())) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> { sup!(self, Sra) }
    fn read_addrs(&mut self, a: U, data: &mut [u8], t: Tid) -> TargetResult<usize, Self> { self.do_read_mem(Some(t.get()), a, data) }
    fn write_addrs(&mut self, a: U, data: &[u8], t: Tid) -> TargetResult<(), Self> { self.do_write_mem(Some(t.get()), a, data) }
    fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), TErr> {
        let mut ts = self.st.borrow().b.threads.clone();
        let r = self.query(Q::Threads);
        // (a listing may fail after some of the threads)
        if r.is_err() { let n = self.st.borrow().h(7) as usize; ts.truncate(n % (ts.len() + 1)) }
        for t in ts { f(Tid::new(t).unwrap()) }
        r
    }
    fn is_thread_alive(&mut self, tid: Tid) -> Result<bool, TErr> {
        if self.st.borrow().b.plain {
            let mut st = self.st.borrow_mut();
            let b = st.b.threads.contains(&tid.get());
            st.log.push(Call { k: K::Alive(tid.get()), out: Out::Bool(b) });
            return Ok(b);
        }
        self.call(K::Alive(tid.get()), EK::FatalOnly, |st| {
            let b = st.b.threads.contains(&tid.get()) && st.h(8) % 8 != 0;
            (Out::Bool(b), b)
        }).map_err(fe)
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> { sup!(self, Resume) }
    fn support_thread_extra_info(&mut self) -> Option<thread_extra_info::ThreadExtraInfoOps<'_, Self>> { sup!(self, ThrExtra) }
}
impl<U: UFull> SingleRegisterAccess<()> for MockTarget<U> {
    fn read_register(&mut self, _: (), id: TReg, buf: &mut [u8]) -> TargetResult<usize, Self> { self.do_read_reg(None, id, buf) }
    fn write_register(&mut self, _: (), id: TReg, val: &[u8]) -> TargetResult<(), Self> { self.unit(K::WriteReg(None, id.0, val.to_vec())) }
}
impl<U: UFull> SingleRegisterAccess<Tid> for MockTarget<U> {
    fn read_register(&mut self, t: Tid, id: TReg, buf: &mut [u8]) -> TargetResult<usize, Self> { self.do_read_reg(Some(t.get()), id, buf) }
    fn write_register(&mut self, t: Tid, id: TReg, val: &[u8]) -> TargetResult<(), Self> { self.unit(K::WriteReg(Some(t.get()), id.0, val.to_vec())) }
}
impl<U: UFull> SingleThreadResume for MockTarget<U> {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), TErr> { self.funit(K::SResume(sig(s))) }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> { sup!(self, Step) }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> { sup!(self, Range) }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> { sup!(self, RStep) }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> { sup!(self, RCont) }
}
impl<U: UFull> SingleThreadSingleStep for MockTarget<U> {
    fn step(&mut self, s: Option<Signal>) -> Result<(), TErr> { self.funit(K::SStep(sig(s))) }
}
impl<U: UFull> SingleThreadRangeStepping for MockTarget<U> {
    fn resume_range_step(&mut self, a: U, b: U) -> Result<(), TErr> { self.funit(K::SRange(a.to128(), b.to128())) }
}
impl<U: UFull> MultiThreadResume for MockTarget<U> {
    fn resume(&mut self) -> Result<(), TErr> { self.funit(K::MResume) }
    fn clear_resume_actions(&mut self) -> Result<(), TErr> { self.funit(K::MClear) }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), TErr> { self.funit(K::MCont(t.get(), sig(s))) }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> { sup!(self, Step) }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> { sup!(self, Range) }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> { sup!(self, RStep) }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> { sup!(self, RCont) }
}
impl<U: UFull> MultiThreadSingleStep for MockTarget<U> {
    fn set_resume_action_step(&mut self, t: Tid, s: Option<Signal>) -> Result<(), TErr> { self.funit(K::MStep(t.get(), sig(s))) }
}
impl<U: UFull> MultiThreadRangeStepping for MockTarget<U> {
    fn set_resume_action_range_step(&mut self, t: Tid, a: U, b: U) -> Result<(), TErr> { self.funit(K::MRange(t.get(), a.to128(), b.to128())) }
}
impl<U: UFull> ReverseCont<()> for MockTarget<U> {
    fn reverse_cont(&mut self) -> Result<(), TErr> { self.funit(K::RCont) }
}
impl<U: UFull> ReverseCont<Tid> for MockTarget<U> {
    fn reverse_cont(&mut self) -> Result<(), TErr> { self.funit(K::RCont) }
}
impl<U: UFull> ReverseStep<()> for MockTarget<U> {
    fn reverse_step(&mut self, _: ()) -> Result<(), TErr> { self.funit(K::RStep(None)) }
}
impl<U: UFull> ReverseStep<Tid> for MockTarget<U> {
    fn reverse_step(&mut self, t: Tid) -> Result<(), TErr> { self.funit(K::RStep(Some(t.get()))) }
}
impl<U: UFull> thread_extra_info::ThreadExtraInfo for MockTarget<U> {
    fn thread_extra_info(&self, t: Tid, buf: &mut [u8]) -> Result<usize, TErr> {
        self.call(K::ThrExtra(t.get()), EK::FatalOnly, |st| {
            let h = st.h(9) as usize;
            let n = (if st.b.mon & 32 != 0 { h % 3000 } else { h % 70 }).min(buf.len());
            let s = st.h(10);
            for (i, b) in buf.iter_mut().enumerate() { *b = if i < n { gen_bytes(s, st.b.objmode, i as u128) } else { 0xee } }
            (Out::Bytes(buf[..n].to_vec()), st.count(n, buf.len()))
        }).map_err(fe)
    }
}
impl<U: UFull> Breakpoints for MockTarget<U> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> { sup!(self, Sw) }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> { sup!(self, Hw) }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> { sup!(self, Watch) }
}
impl<U: UFull> SwBreakpoint for MockTarget<U> {
    fn add_sw_breakpoint(&mut self, a: U, k: TBk) -> TargetResult<bool, Self> { self.bp(true, BpK::Sw, a, k.0 as u128) }
    fn remove_sw_breakpoint(&mut self, a: U, k: TBk) -> TargetResult<bool, Self> { self.bp(false, BpK::Sw, a, k.0 as u128) }
}
impl<U: UFull> HwBreakpoint for MockTarget<U> {
    fn add_hw_breakpoint(&mut self, a: U, k: TBk) -> TargetResult<bool, Self> { self.bp(true, BpK::Hw, a, k.0 as u128) }
    fn remove_hw_breakpoint(&mut self, a: U, k: TBk) -> TargetResult<bool, Self> { self.bp(false, BpK::Hw, a, k.0 as u128) }
}
fn wk(k: WatchKind) -> BpK { match k { WatchKind::Write => BpK::W, WatchKind::Read => BpK::R, WatchKind::ReadWrite => BpK::A } }
impl<U: UFull> HwWatchpoint for MockTarget<U> {
    fn add_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> { self.bp(true, wk(k), a, l.to128()) }
    fn remove_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> { self.bp(false, wk(k), a, l.to128()) }
}
impl<U: UFull> MonitorCmd for MockTarget<U> {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ConsoleOutput<'_>) -> Result<(), TErr> {
        let msgs = self.call(K::Monitor(cmd.to_vec()), EK::FatalOnly, |st| {
            let big = st.b.mon & 32 != 0;
            let n = match st.b.mon % 4 { 0 => st.h(20) % 3, 1 => 1, 2 => st.h(20) % if big { 40 } else { 6 }, _ => 0 };
            let msgs: Vec<Vec<u8>> = (0..n).map(|i| {
                let s = st.h(21 + i);
                let l = match s % 4 { 0 => s >> 8 & 3, 1 => s >> 8 & 31, 2 => 120 + (s >> 8) % 20, _ => (s >> 8) % if big { 3000 } else { 300 } } as usize;
                { let mut v: Vec<u8> = (0..l).map(|k| gen_bytes(s, st.b.mon % 32 / 4, k as u128)).collect(); if st.b.mon & 16 == 0 { for b in &mut v { *b &= 0x7f } if s >> 20 & 1 == 0 { v.push(b'\n') } } v }
            }).collect();
            (Out::Chunks(msgs.clone()), msgs)
        }).map_err(fe)?;
        let mode = self.st.borrow().h(19) % 4;
        let start = self.st.borrow().wire.as_ref().map_or(0, |w| w.borrow().out.len());
        self.st.borrow_mut().marks.clear();
        let mut printed = 0;
        let st = self.st.clone();
        let mark = |printed: usize| {
            let mut st = st.borrow_mut();
            let Some(sent) = st.wire.as_ref().map(|w| { let w = w.borrow(); w.out.get(start..w.flushed).map(|b| b.to_vec()).unwrap_or_default() }) else { return };
            if st.marks.len() < 64 { st.marks.push((printed, sent)) }
        };
        for m in msgs {
            // without an allocator every write is sent at once
            if !STD && m.is_empty() { continue }
            match mode {
                0 => out.write_raw(&m),
                1 => { // through the formatting interface when it is text
                    use std::fmt::Write;
                    match std::str::from_utf8(&m) { Ok(s) => { let _ = write!(out, "{}", s); } Err(_) => out.write_raw(&m) }
                }
                2 => match std::str::from_utf8(&m) { // through the macros
                    Ok("\n") => gdbstub::outputln!(out),
                    Ok(s) => match s.strip_suffix('\n') { Some(s) => gdbstub::outputln!(out, "{}", s), None => gdbstub::output!(out, "{}", s) },
                    Err(_) => out.write_raw(&m),
                },
                #[cfg(feature = "std")]
                _ => { let h = m.len() / 2; out.write_raw(&m[..h]); out.flush(); mark(printed + h); out.write_raw(&m[h..]); out.flush(); mark(printed + m.len()); }
                #[cfg(not(feature = "std"))]
                _ => { let h = m.len() / 2; if h > 0 { out.write_raw(&m[..h]) } out.write_raw(&m[h..]) }
            }
            printed += m.len();
            if !STD { mark(printed) }
        }
        self.query(Q::Late)
    }
}
impl<U: UFull> ExtendedMode for MockTarget<U> {
    fn run(&mut self, f: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> {
        let args: Vec<Vec<u8>> = args.map(|a| a.to_vec()).collect();
        self.call(K::Run(f.map(|f| f.to_vec()), args), EK::Any, |st| {
            let p = 1 + (st.h(1) % 70000) as usize;
            st.pid = p;
            (Out::Num(p as u128), pid(p))
        }).map_err(te)
    }
    fn attach(&mut self, p: Pid) -> TargetResult<(), Self> {
        self.call(K::Attach(p.get()), EK::Any, |st| { st.pid = p.get(); (Out::Unit, ()) }).map_err(te)
    }
    fn query_if_attached(&mut self, p: Pid) -> TargetResult<AttachKind, Self> {
        self.call(K::QueryAtt(p.get()), EK::Any, |st| {
            let b = st.h(2) & 1 == 0;
            (Out::Bool(b), if b { AttachKind::Attach } else { AttachKind::Run })
        }).map_err(te)
    }
    fn kill(&mut self, p: Option<Pid>) -> TargetResult<ShouldTerminate, Self> {
        self.call(K::Kill(p.map(|p| p.get())), EK::Any, |st| {
            let b = st.h(2) & 1 == 0;
            (Out::Bool(b), if b { ShouldTerminate::Yes } else { ShouldTerminate::No })
        }).map_err(te)
    }
    fn restart(&mut self) -> Result<(), TErr> { self.funit(K::Restart) }
    fn on_start(&mut self) -> Result<(), TErr> {
        if self.st.borrow().b.plain {
            self.st.borrow_mut().log.push(Call { k: K::OnStart, out: Out::Unit });
            return Ok(());
        }
        self.funit(K::OnStart)
    }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> { sup!(self, Aslr) }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> { sup!(self, Env) }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> { sup!(self, Shell) }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> { sup!(self, Wdir) }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> { sup!(self, CurPid) }
}
impl<U: UFull> ConfigureAslr for MockTarget<U> {
    fn cfg_aslr(&mut self, e: bool) -> TargetResult<(), Self> { self.unit(K::Aslr(e)) }
}
impl<U: UFull> ConfigureEnv for MockTarget<U> {
    fn set_env(&mut self, k: &[u8], v: Option<&[u8]>) -> TargetResult<(), Self> { self.unit(K::SetEnv(k.to_vec(), v.map(|v| v.to_vec()))) }
    fn remove_env(&mut self, k: &[u8]) -> TargetResult<(), Self> { self.unit(K::RmEnv(k.to_vec())) }
    fn reset_env(&mut self) -> TargetResult<(), Self> { self.unit(K::ResetEnv) }
}
impl<U: UFull> ConfigureStartupShell for MockTarget<U> {
    fn cfg_startup_with_shell(&mut self, e: bool) -> TargetResult<(), Self> { self.unit(K::Shell(e)) }
}
impl<U: UFull> ConfigureWorkingDir for MockTarget<U> {
    fn cfg_working_dir(&mut self, d: Option<&[u8]>) -> TargetResult<(), Self> { self.unit(K::Wdir(d.map(|v| v.to_vec()))) }
}
impl<U: UFull> CurrentActivePid for MockTarget<U> {
    fn current_active_pid(&mut self) -> Result<Pid, TErr> {
        self.query(Q::Pid)?;
        Ok(pid(self.st.borrow().pid))
    }
}
impl<U: UFull> SectionOffsets for MockTarget<U> {
    fn get_section_offsets(&mut self) -> Result<Offsets<U>, TErr> {
        let o = self.call(K::SecOff, EK::FatalOnly, |st| {
            let b = U::BITS;
            let v = |k| st.val(k, b) as u128;
            let o = match st.h(30) % 4 {
                0 => Offs::Sec(v(31), v(32), None),
                1 => Offs::Sec(v(31), v(32), Some(v(33))),
                2 => Offs::Seg(v(31), None),
                _ => Offs::Seg(v(31), Some(v(32))),
            };
            (Out::Offs(o.clone()), o)
        }).map_err(fe)?;
        let u = U::from128;
        Ok(match o {
            Offs::Sec(a, b, c) => Offsets::Sections { text: u(a), data: u(b), bss: c.map(u) },
            Offs::Seg(a, b) => Offsets::Segments { text_seg: u(a), data_seg: b.map(u) },
        })
    }
}
impl<U: UFull> target_description_xml_override::TargetDescriptionXmlOverride for MockTarget<U> {
    fn target_description_xml(&self, annex: &[u8], off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { self.xfer(Obj::Xml, None, annex, off, len, buf) }
}
impl<U: UFull> memory_map::MemoryMap for MockTarget<U> {
    fn memory_map_xml(&self, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { self.xfer(Obj::MemMap, None, b"", off, len, buf) }
}
impl<U: UFull> exec_file::ExecFile for MockTarget<U> {
    fn get_exec_file(&self, p: Option<Pid>, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { self.xfer(Obj::ExecFile, p.map(|p| p.get()), b"", off, len, buf) }
}
impl<U: UFull> auxv::Auxv for MockTarget<U> {
    fn get_auxv(&self, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { self.xfer(Obj::Auxv, None, b"", off, len, buf) }
}
impl<U: UFull> libraries::LibrariesSvr4 for MockTarget<U> {
    fn get_libraries_svr4(&self, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { self.xfer(Obj::Svr4, None, b"", off, len, buf) }
}
impl<U: UFull> LldbRegisterInfoOverride for MockTarget<U> {
    fn lldb_register_info<'a>(&mut self, id: usize, cb: Callback<'a>) -> Result<CallbackToken<'a>, TErr> {
        let r = self.call(K::Lldb(id), EK::FatalOnly, |st| {
            let r = lreg(st.b.lldb_salt, id);
            (Out::Lldb(r.clone()), r)
        }).map_err(fe)?;
        Ok(match r {
            None => cb.done(),
            Some(r) => with_lldb(&r, |r| cb.write(r)),
        })
    }
}
impl<U: UFull> CatchSyscalls for MockTarget<U> {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, U>>) -> TargetResult<(), Self> {
        let v = f.map(|f| f.map(|x| x.to128()).collect::<Vec<_>>());
        self.unit(K::CatchOn(v))
    }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> { self.unit(K::CatchOff) }
}
impl<U: UFull> HostIo for MockTarget<U> {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> { sup!(self, HOpen) }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> { sup!(self, HClose) }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> { sup!(self, HPread) }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> { sup!(self, HPwrite) }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> { sup!(self, HFstat) }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> { sup!(self, HUnlink) }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> { sup!(self, HReadlink) }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> { sup!(self, HSetfs) }
}
impl<U: UFull> HostIoOpen for MockTarget<U> {
    fn open(&mut self, f: &[u8], fl: HostIoOpenFlags, m: HostIoOpenMode) -> HostIoResult<u32, Self> {
        self.call(K::HOpen(f.to_vec(), fl.bits(), m.bits()), EK::Host, |st| { let v = st.val(40, 32); (Out::Num(v as u128), v as u32) }).map_err(he)
    }
}
impl<U: UFull> HostIoClose for MockTarget<U> {
    fn close(&mut self, fd: u32) -> HostIoResult<(), Self> { self.call(K::HClose(fd), EK::Host, |_| (Out::Unit, ())).map_err(he) }
}
impl<U: UFull> HostIoPread for MockTarget<U> {
    fn pread(&mut self, fd: u32, count: usize, off: u64, buf: &mut [u8]) -> HostIoResult<usize, Self> {
        self.call(K::HPread { fd, count, off, room: buf.len() }, EK::Host, |st| {
            let s = st.h(41);
            let n = (match s % 4 { 0 => 0, 1 => usize::MAX, _ => (s >> 8) as usize % 100 }).min(count).min(buf.len());
            for (i, b) in buf.iter_mut().enumerate() { *b = if i < n { gen_bytes(s, st.b.objmode, i as u128) } else { 0xee } }
            (Out::Bytes(buf[..n].to_vec()), st.count(n, buf.len()))
        }).map_err(he)
    }
}
impl<U: UFull> HostIoPwrite for MockTarget<U> {
    fn pwrite(&mut self, fd: u32, off: U, data: &[u8]) -> HostIoResult<U, Self> {
        self.call(K::HPwrite(fd, off.to128(), data.to_vec()), EK::Host, |st| {
            let v = match st.h(42) % 3 { 0 => st.val(43, U::BITS) as u128, _ => (data.len() as u128) & ((1u128 << U::BITS) - 1) };
            (Out::Num(v), U::from128(v))
        }).map_err(he)
    }
}
impl<U: UFull> HostIoFstat for MockTarget<U> {
    fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> {
        let v = self.call(K::HFstat(fd), EK::Host, |st| {
            let mut v: Vec<u64> = (0..13).map(|i| st.val(50 + i, if (7..10).contains(&i) { 64 } else { 32 })).collect();
            v[2] &= HostIoOpenMode::all().bits() as u64;
            (Out::Stat(v.clone()), v)
        }).map_err(he)?;
        let w = |i: usize| v[i] as u32;
        Ok(HostIoStat {
            st_dev: w(0), st_ino: w(1), st_mode: HostIoOpenMode::from_bits_retain(w(2)), st_nlink: w(3), st_uid: w(4), st_gid: w(5), st_rdev: w(6),
            st_size: v[7], st_blksize: v[8], st_blocks: v[9], st_atime: w(10), st_mtime: w(11), st_ctime: w(12),
        })
    }
}
impl<U: UFull> HostIoUnlink for MockTarget<U> {
    fn unlink(&mut self, f: &[u8]) -> HostIoResult<(), Self> { self.call(K::HUnlink(f.to_vec()), EK::Host, |_| (Out::Unit, ())).map_err(he) }
}
impl<U: UFull> HostIoReadlink for MockTarget<U> {
    fn readlink(&mut self, f: &[u8], buf: &mut [u8]) -> HostIoResult<usize, Self> {
        self.call(K::HReadlink(f.to_vec()), EK::Host, |st| {
            let s = st.h(44);
            let n = ((s >> 8) as usize % 90).min(buf.len());
            for (i, b) in buf.iter_mut().enumerate() { *b = if i < n { gen_bytes(s, st.b.objmode, i as u128) } else { 0xee } }
            (Out::Bytes(buf[..n].to_vec()), st.count(n, buf.len()))
        }).map_err(he)
    }
}
impl<U: UFull> HostIoSetfs for MockTarget<U> {
    fn setfs(&mut self, fs: FsKind) -> HostIoResult<(), Self> {
        let p = match fs { FsKind::Stub => None, FsKind::Pid(p) => Some(p.get()) };
        self.call(K::HSetfs(p), EK::Host, |_| (Out::Unit, ())).map_err(he)
    }
}

fn act_of<U: UInt>(a: &TracepointAction<'_, U>) -> Act {
    match a {
        TracepointAction::Registers { mask } => Act::Regs(mask.to_vec()),
        TracepointAction::Memory { basereg, offset, length } => Act::Mem { base: *basereg, off: offset.to128(), len: *length },
        TracepointAction::Expression { expr } => Act::Expr(expr.to_vec()),
    }
}
fn src_of<U: UInt>(s: &SourceTracepoint<'_, U>) -> TpSrc {
    TpSrc {
        num: s.number.0, addr: s.addr.to128(), start: s.start, slen: s.slen, bytes: s.bytes.to_vec(),
        kind: match s.kind { TracepointSourceType::At => 0, TracepointSourceType::Cond => 1, TracepointSourceType::Cmd => 2 },
    }
}

impl<U: UFull> Tracepoints for MockTarget<U> {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> {
        self.call(K::TInit, EK::Any, |st| { st.tps.clear(); (Out::Unit, ()) }).map_err(te)
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TargetResult<(), Self> {
        let d = TpDef { num: t.number.0, addr: t.addr.to128(), enabled: t.enabled, step: t.step_count, pass: t.pass_count };
        self.call(K::TBegin(d.clone()), EK::Any, |st| {
            st.tps.retain(|x| x.def.num != d.num);
            st.tps.push(Tp { def: d.clone(), acts: vec![], srcs: vec![] });
            (Out::Unit, ())
        }).map_err(te)
    }
    fn tracepoint_create_continue(&mut self, tp: Tracepoint, a: &TracepointAction<'_, U>) -> TargetResult<(), Self> {
        let a = act_of(a);
        self.call(K::TCont(tp.0, a.clone()), EK::Any, |st| {
            if let Some(t) = st.tps.iter_mut().find(|t| t.def.num == tp.0) { t.acts.push(a) }
            (Out::Unit, ())
        }).map_err(te)
    }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TargetResult<(), Self> { self.unit(K::TComplete(tp.0)) }
    fn tracepoint_status(&self, tp: Tracepoint, addr: U) -> TargetResult<TracepointStatus, Self> {
        self.call(K::TStatus(tp.0, addr.to128()), EK::Any, |st| {
            let (a, b) = (st.val(60, 64), st.val(61, 64));
            (Out::TpStat(a, b), TracepointStatus { hit_count: a, bytes_used: b })
        }).map_err(te)
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> { &mut self.tstate }
    fn tracepoint_enumerate_start(&mut self, tp: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let (d, step) = self.call(K::TEnumStart(tp.map(|t| t.0)), EK::Any, |st| {
            let d = match tp { None => st.tps.first(), Some(t) => st.tps.iter().find(|x| x.def.num == t.0) }.map(|t| t.def.clone());
            let step = match &d { None => EStep::Done, Some(d) => Self::tp_next(st, d.num, d.addr, 0) };
            (Out::Enum(d.clone().map(TItem::Def), step.clone()), (d, step))
        }).map_err(te)?;
        if let Some(d) = d {
            f(&NewTracepoint { number: Tracepoint(d.num), enabled: d.enabled, addr: U::from128(d.addr), step_count: d.step, pass_count: d.pass });
        }
        self.after()?;
        Ok(estep(step))
    }
    fn tracepoint_enumerate_action(&mut self, tp: Tracepoint, step: u64, f: &mut dyn FnMut(&TracepointAction<'_, U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let (a, step) = self.call(K::TEnumAct(tp.0, step), EK::Any, |st| {
            let t = st.tps.iter().find(|x| x.def.num == tp.0);
            let addr = t.map(|t| t.def.addr).unwrap_or(0);
            let a = t.and_then(|t| t.acts.get(step as usize).cloned());
            let more = t.map_or(false, |t| (step as usize) + 1 < t.acts.len());
            let next = if more { EStep::Action } else { Self::tp_next(st, tp.0, addr, 1) };
            (Out::Enum(a.clone().map(|a| TItem::Act(tp.0, addr, a)), next.clone()), (a, next))
        }).map_err(te)?;
        match a {
            Some(Act::Regs(mut m)) => f(&TracepointAction::Registers { mask: ManagedSlice::Borrowed(&mut m) }),
            Some(Act::Expr(mut m)) => f(&TracepointAction::Expression { expr: ManagedSlice::Borrowed(&mut m) }),
            Some(Act::Mem { base, off, len }) => f(&TracepointAction::Memory { basereg: base, offset: U::from128(off), length: len }),
            None => {}
        }
        self.after()?;
        Ok(estep(step))
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> {
        self.unit(match c {
            TraceBufferConfig::Shape(BufferShape::Circular) => K::TShape(true),
            TraceBufferConfig::Shape(BufferShape::Linear) => K::TShape(false),
            TraceBufferConfig::Size(n) => K::TSize(n),
        })
    }
    fn trace_buffer_request(&mut self, off: u64, len: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> {
        let chunks = self.call(K::TBufReq(off, len), EK::Any, |st| {
            let n = match st.h(62) % 4 { 0 => 0, 1 => len.min(600), _ => (st.h(63) as usize % 200).min(len) };
            let s = st.h(64);
            let data: Vec<u8> = (0..n).map(|i| gen_bytes(s, st.b.objmode, i as u128)).collect();
            let chunks: Vec<Vec<u8>> = if n == 0 { vec![] } else if st.h(65) % 3 == 0 && n > 1 { vec![data[..n / 2].to_vec(), data[n / 2..].to_vec()] } else { vec![data] };
            (Out::Chunks(chunks.clone()), (st.late(chunks.is_empty()), chunks))
        }).map_err(te)?;
        let (late, chunks) = chunks;
        for mut c in chunks { f(&mut c) }
        self.after()?;
        late.map_or(Ok(()), |e| Err(te(e)))
    }
    fn trace_experiment_status(&self, report: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> {
        let v = self.call(K::TExpStatus, EK::Any, |st| {
            let n = match st.h(70) % 8 { 0 => 0, 1 => 2, _ => 1 };
            let v: Vec<TStat> = (0..n).map(|i| {
                let h = st.h(71 + i);
                let txt = || -> Vec<u8> { (0..(h >> 8) % 30).map(|k| gen_bytes(h, st.b.objmode, k as u128)).collect() };
                match h % 10 {
                    0 | 1 => TStat::Running, 2 => TStat::NotRunning, 3 => TStat::NotRun,
                    4 => TStat::Stop(if h >> 7 & 1 == 0 { None } else { Some(txt()) }),
                    5 => TStat::Full, 6 => TStat::Disc, 7 => TStat::Pass(st.val(80 + i, 64) as usize), 8 => TStat::Error(txt(), st.val(80 + i, 64) as usize),
                    _ => TStat::Unknown,
                }
            }).collect();
            let late = st.late(v.is_empty());
            (Out::TStat(v.clone(), late.is_some()), (late, v))
        }).map_err(te)?;
        let (late, v) = v;
        for s in &v {
            report(match s {
                TStat::Running => ExperimentStatus::Running, TStat::NotRunning => ExperimentStatus::NotRunning, TStat::NotRun => ExperimentStatus::NotRun,
                TStat::Stop(t) => ExperimentStatus::Stop(t.as_deref()), TStat::Full => ExperimentStatus::Full, TStat::Disc => ExperimentStatus::Disconnected,
                TStat::Pass(n) => ExperimentStatus::PassCount(Tracepoint(*n)), TStat::Error(t, n) => ExperimentStatus::Error(t, Tracepoint(*n)), TStat::Unknown => ExperimentStatus::Unknown,
            })
        }
        self.after()?;
        late.map_or(Ok(()), |e| Err(te(e)))
    }
    fn trace_experiment_info(&self, report: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> {
        let r = self.call(K::TExpInfo, EK::Any, |st| {
            let n = st.h(90) % 5;
            let v: Vec<TExpl> = (0..n).map(|i| {
                let h = st.h(91 + i);
                let x = st.val(100 + i, 64) as usize;
                match h % 7 {
                    0 => TExpl::Frames(x), 1 => TExpl::Created(x), 2 => TExpl::Size(x), 3 => TExpl::Free(x),
                    4 => TExpl::Circular(h >> 8 & 1 == 0), 5 => TExpl::Disc(h >> 8 & 1 == 0),
                    _ => TExpl::Other(["starttime:0", "username:aaaa", "notes:6f6f6f6f6f", "xx:"][(h >> 9) as usize % 4].into()),
                }
            }).collect();
            // an error after some of the items were reported
            let e = (st.b.nf > 0 && st.h(99) % 6 == 0).then(|| E::Errno(errno(st.h(98))));
            (Out::TExpl(v.clone(), e.clone()), (v, e))
        });
        let (v, e) = r.map_err(te)?;
        for x in &v {
            report(match x {
                TExpl::Frames(n) => ExperimentExplanation::Frames(*n), TExpl::Created(n) => ExperimentExplanation::Created(*n),
                TExpl::Size(n) => ExperimentExplanation::Size(*n), TExpl::Free(n) => ExperimentExplanation::Free(*n),
                TExpl::Circular(b) => ExperimentExplanation::Circular(*b), TExpl::Disc(b) => ExperimentExplanation::DisconnectedTracing(*b),
                TExpl::Other(s) => ExperimentExplanation::Other(s),
            })
        }
        self.after()?;
        match e { Some(e) => Err(te(e)), None => Ok(()) }
    }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> { self.unit(K::TStart) }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> { self.unit(K::TStop) }
    fn select_frame(&mut self, fr: FrameRequest<U>, report: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> {
        let r = match fr {
            FrameRequest::Select(n) => FReq::Select(n), FrameRequest::AtPC(a) => FReq::Pc(a.to128()), FrameRequest::Hit(t) => FReq::Hit(t.0),
            FrameRequest::Between(a, b) => FReq::Between(a.to128(), b.to128()), FrameRequest::Outside(a, b) => FReq::Outside(a.to128(), b.to128()),
        };
        let v = self.call(K::TFrame(r), EK::Any, |st| {
            let v = match st.h(110) % 4 {
                0 => vec![],
                1 => vec![FDesc::Num(st.val(111, 64))],
                // nothing fixes the order in which a target describes a frame
                2 if st.h(113) % 2 == 0 => vec![FDesc::Hit(st.val(112, 64) as usize), FDesc::Num(st.val(111, 64))],
                _ => vec![FDesc::Num(st.val(111, 64)), FDesc::Hit(st.val(112, 64) as usize)],
            };
            (Out::Frame(v.clone()), (st.late(v.is_empty()), v))
        }).map_err(te)?;
        let (late, v) = v;
        for d in v {
            report(match d { FDesc::Num(n) => FrameDescription::FrameNumber(n), FDesc::Hit(t) => FrameDescription::Hit(Tracepoint(t)) })
        }
        self.after()?;
        late.map_or(Ok(()), |e| Err(te(e)))
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> { sup!(self, TraceSrc) }
}
fn estep<U: UInt>(s: EStep) -> TracepointEnumerateStep<U> {
    match s {
        EStep::Action => TracepointEnumerateStep::Action, EStep::Source => TracepointEnumerateStep::Source, EStep::Done => TracepointEnumerateStep::Done,
        EStep::Next(n, a) => TracepointEnumerateStep::Next { tp: Tracepoint(n), addr: U::from128(a) },
    }
}
impl<U: UFull> TracepointSource for MockTarget<U> {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, U>) -> TargetResult<(), Self> {
        let s = src_of(&s);
        self.call(K::TAttachSrc(s.clone()), EK::Any, |st| {
            if let Some(t) = st.tps.iter_mut().find(|t| t.def.num == s.num) { t.srcs.push(s) }
            (Out::Unit, ())
        }).map_err(te)
    }
    fn tracepoint_enumerate_source(&mut self, tp: Tracepoint, step: u64, f: &mut dyn FnMut(&SourceTracepoint<'_, U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let (s, step) = self.call(K::TEnumSrc(tp.0, step), EK::Any, |st| {
            let t = st.tps.iter().find(|x| x.def.num == tp.0);
            let addr = t.map(|t| t.def.addr).unwrap_or(0);
            let s = t.and_then(|t| t.srcs.get(step as usize).cloned());
            let more = t.map_or(false, |t| (step as usize) + 1 < t.srcs.len());
            let next = if more { EStep::Source } else { Self::tp_next(st, tp.0, addr, 2) };
            (Out::Enum(s.clone().map(TItem::Src), next.clone()), (s, next))
        }).map_err(te)?;
        if let Some(mut s) = s {
            f(&SourceTracepoint {
                number: Tracepoint(s.num), addr: U::from128(s.addr), start: s.start, slen: s.slen, bytes: ManagedSlice::Borrowed(&mut s.bytes),
                kind: match s.kind { 0 => TracepointSourceType::At, 1 => TracepointSourceType::Cond, _ => TracepointSourceType::Cmd },
            });
        }
        self.after()?;
        Ok(estep(step))
    }
}

// ---------------------------------------------------------------------------------------------
// connection

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ev { W(u8), Flush }

#[derive(Default)]
pub struct CState {
    pub out: Vec<u8>,
    /// length of `out` at the last flush
    pub flushed: usize,
    pub flushes: u64,
    pub starts: u32,
    /// number of write/flush/start operations so far
    pub ops: u64,
    /// operation at which the connection fails, error code, persistent?
    pub fail_at: Option<(u64, u32, bool)>,
    pub failed: u32,
    /// use an own write_all
    pub bulk: bool,
}
pub type Cs = Rc<RefCell<CState>>;
pub struct MockConn(pub Cs);
impl CState {
    fn op(&mut self) -> Result<(), CErr> {
        let n = self.ops;
        self.ops += 1;
        if let Some((at, code, persistent)) = self.fail_at {
            if n == at || (persistent && n > at) {
                self.failed += 1;
                return Err(CErr(code + (n - at) as u32));
            }
        }
        Ok(())
    }
}
impl Connection for MockConn {
    type Error = CErr;
    fn write(&mut self, b: u8) -> Result<(), CErr> {
        let mut c = self.0.borrow_mut();
        c.op()?;
        c.out.push(b);
        if c.out.len() > 64 << 20 { drop(c); panic!("runaway: the stub does not stop writing") }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), CErr> {
        let mut c = self.0.borrow_mut();
        c.op()?;
        c.flushed = c.out.len();
        c.flushes += 1;
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), CErr> {
        let mut c = self.0.borrow_mut();
        c.op()?;
        c.starts += 1;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// generators

pub fn gen_cfg(src: &mut Src) -> Cfg {
    let mut c = match src.below(6) {
        0 | 1 | 2 => Cfg::all(),
        3 => Cfg(src.raw() | src.raw()),
        4 => Cfg(src.raw()),
        _ => Cfg(0).with(F::Guard, true).with(F::NoAck, true).with(F::XUp, true).with(F::UseXml, true).with(F::UseLldb, true).with(F::RStub, src.bool()).with(F::Resume, src.bool()),
    };
    c.0 &= Cfg::all().0;
    c.set(F::Multi, src.bool());
    c.set(F::Rle, src.bool());
    // usually a session can start
    if !c.sw() && src.chance(49, 50) { c.set(F::Guard, true) }
    c
}

pub fn gen_tid(src: &mut Src) -> usize {
    (match src.below(7) {
        0 => 1,
        1 | 2 => 1 + src.below(4),
        3 => src.num(64).max(1),
        4 => [0xa, 0x10, 0xff, 0x100, 0xdeadbeef, u64::MAX, 1 << 63, 0x8000_0000][src.usize(8)],
        _ => 1 + src.below(0x1_0000),
    }) as usize
}

pub fn gen_act(src: &mut Src, bits: u32) -> Act {
    match src.below(3) {
        0 => { let l = src.lim(20, 300); Act::Expr(src.bytes(l)) }
        1 => { let n = 1 + src.len(12); Act::Regs(src.bytes_n(n)) }
        _ => Act::Mem { base: src.bool().then(|| src.num(64)), off: src.num(bits) as u128, len: src.num(64) },
    }
}

pub fn gen_beh(src: &mut Src, bits: u32) -> Beh {
    let salt = src.raw();
    let max = (1u128 << bits) - 1;
    let size = 1 + match src.below(4) { 0 => src.below(40), 1 => src.below(600), _ => src.below(src.lim(20_000, 100_000) as u64) } as u128;
    let lo = match src.below(6) {
        0 | 1 => 0,
        2 => max.saturating_sub(size - 1),
        3 => max.saturating_sub(size + src.below(300) as u128),
        _ => (src.num(bits) as u128).min(max),
    };
    let (nf, fatal) = match src.below(8) { 0 => (100, 0), 1 => (300, 0), 2 => (60, 6), 3 => (0, 12), _ => (0, 0) };
    let nt = match src.below(6) { 1..=5 if src.huge => 200 + src.below(400), 3..=5 if src.big => 5 + src.below(60), 0 => 0, 1 => 1, 2 | 3 => 2 + src.below(3), _ => src.below(7) };
    let mut threads: Vec<usize> = vec![];
    for _ in 0..nt {
        let t = gen_tid(src);
        if !threads.contains(&t) { threads.push(t) }
    }
    let mut objlen = [0usize; 5];
    for o in objlen.iter_mut() { *o = match src.below(4) { 0 => src.below(3), 1 => src.below(64), _ => src.below(src.lim(700, 70_000) as u64) } as usize }
    let mut preload = vec![];
    let (ntp, nit) = if src.huge { if src.bool() { (600, 3) } else { (4, 600) } } else { (src.lim(4, 16) as u64, src.lim(4, 12) as u64) };
    for i in 0..src.below(ntp) {
        let num = match src.below(3) { 0 => i + 1, 1 => src.num(64).wrapping_add(i), _ => (i + 1) * 0x1d } as usize;
        let addr = src.num(bits) as u128;
        if preload.iter().any(|t: &Tp| t.def.num == num) { continue }
        let acts = (0..src.below(nit)).map(|_| gen_act(src, bits)).collect();
        let srcs = (0..src.below(nit)).map(|_| TpSrc { num, addr, kind: src.below(3) as u8, start: src.num(32) as u32, slen: src.num(32) as u32, bytes: { let l = src.lim(24, 700); src.bytes(l) } }).collect();
        preload.push(Tp { def: TpDef { num, addr, enabled: src.bool(), step: src.num(64), pass: src.num(64) }, acts, srcs });
    }
    Beh {
        lies: false,
        salt, nf, fatal, memmode: src.below(8) as u8, lo, hi: (lo + size - 1).min(max), threads,
        pid: gen_tid(src), regmode: src.below(32) as u8, objlen, objmode: src.below(8) as u8, lldb_salt: src.raw(), mon: src.below(32) as u8 | if src.big { 32 } else { 0 },
        src_first: src.bool(), err_at: None, preload, max_calls: 0, plain: false, far: match src.below(24) { 0 => 1 << 32, 1 => 1 << 33, 2 => 1 << 48, 3 => 1 << 63, 4 => 1 << 20, _ => 0 },
    }
}
