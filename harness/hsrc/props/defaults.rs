//! P38: what a target, connection or architecture does not implement behaves as documented.

use super::conn::diff;
use crate::engine::*;
use crate::hist::*;
use crate::mock::*;
use crate::rsp::show;
use crate::model::*;
use crate::sess::*;
use crate::tarch::*;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::conn::Connection;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::lldb_register_info_override::*;
use gdbstub::target::ext::target_description_xml_override::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetResult};
use std::marker::PhantomData;

/// only the mandatory items
pub struct MA<U, B>(PhantomData<(U, B)>);
impl<U: UFull, B: BreakpointKind> Arch for MA<U, B> {
    type Usize = U;
    type Registers = VRegs<U>;
    type RegId = ();
    type BreakpointKind = B;
}
/// the kind as a number
pub trait BkN: BreakpointKind { fn n(&self) -> usize; }
impl BkN for () { fn n(&self) -> usize { 0 } }
impl BkN for usize { fn n(&self) -> usize { *self } }

/// `V` = which parts are implemented; always only the mandatory methods of each
pub struct Min<U: UFull, B, const V: u8>(MockTarget<U>, PhantomData<B>);

type TR<T, U, B, const V: u8> = TargetResult<T, Min<U, B, V>>;

impl<U: UFull, B: BkN> Target for Min<U, B, 0> {
    type Arch = MA<U, B>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, MA<U, B>, TErr> { if self.multi() { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { Some(self) }
}
impl<U: UFull, B: BkN> Target for Min<U, B, 1> {
    type Arch = MA<U, B>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, MA<U, B>, TErr> { if self.multi() { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { true }
}
impl<U: UFull, B: BkN> Target for Min<U, B, 2> {
    type Arch = MA<U, B>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, MA<U, B>, TErr> { if self.multi() { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { true }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { Some(self) }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> { Some(self) }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> { Some(self) }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> { Some(self) }
}
impl<U: UFull, B: BkN> Target for Min<U, B, 3> {
    type Arch = MA<U, B>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, MA<U, B>, TErr> { if self.multi() { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
}
// an architecture that describes itself, with a target that does not say whether to use that
impl<U: UFull, B: BkN> Target for Min<U, B, 4> {
    type Arch = TA<U>;
    type Error = TErr;
    fn base_ops(&mut self) -> BaseOps<'_, TA<U>, TErr> { if self.multi() { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { true }
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> { if Cfg(self.0.st.borrow().cfg).on(F::XmlOvr) { Some(self) } else { None } }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> { if Cfg(self.0.st.borrow().cfg).on(F::LldbOvr) { Some(self) } else { None } }
}
impl<U: UFull, B: BkN> TargetDescriptionXmlOverride for Min<U, B, 4> {
    fn target_description_xml(&self, annex: &[u8], off: u64, len: usize, buf: &mut [u8]) -> TR<usize, U, B, 4> { self.0.target_description_xml(annex, off, len, buf) }
}
impl<U: UFull, B: BkN> LldbRegisterInfoOverride for Min<U, B, 4> {
    fn lldb_register_info<'a>(&mut self, id: usize, cb: Callback<'a>) -> Result<CallbackToken<'a>, TErr> { self.0.lldb_register_info(id, cb) }
}
impl<U: UFull, B, const V: u8> Min<U, B, V> {
    fn multi(&self) -> bool { Cfg(self.0.st.borrow().cfg).multi() }
}
macro_rules! base { ($($v:literal [$($s:item)*] [$($m:item)*]),*) => { $(
    impl<U: UFull, B: BkN> SingleThreadBase for Min<U, B, $v> {
        fn read_registers(&mut self, r: &mut VRegs<U>) -> TR<(), U, B, $v> { SingleThreadBase::read_registers(&mut self.0, r) }
        fn write_registers(&mut self, r: &VRegs<U>) -> TR<(), U, B, $v> { SingleThreadBase::write_registers(&mut self.0, r) }
        fn read_addrs(&mut self, a: U, d: &mut [u8]) -> TR<usize, U, B, $v> { SingleThreadBase::read_addrs(&mut self.0, a, d) }
        fn write_addrs(&mut self, a: U, d: &[u8]) -> TR<(), U, B, $v> { SingleThreadBase::write_addrs(&mut self.0, a, d) }
        $($s)*
    }
    impl<U: UFull, B: BkN> MultiThreadBase for Min<U, B, $v> {
        fn read_registers(&mut self, r: &mut VRegs<U>, t: Tid) -> TR<(), U, B, $v> { MultiThreadBase::read_registers(&mut self.0, r, t) }
        fn write_registers(&mut self, r: &VRegs<U>, t: Tid) -> TR<(), U, B, $v> { MultiThreadBase::write_registers(&mut self.0, r, t) }
        fn read_addrs(&mut self, a: U, d: &mut [u8], t: Tid) -> TR<usize, U, B, $v> { MultiThreadBase::read_addrs(&mut self.0, a, d, t) }
        fn write_addrs(&mut self, a: U, d: &[u8], t: Tid) -> TR<(), U, B, $v> { MultiThreadBase::write_addrs(&mut self.0, a, d, t) }
        fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), TErr> { self.0.list_active_threads(f) }
        $($m)*
    }
)* } }
base! {
    0 [] [],
    1 [fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> { Some(self) }] [fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> { Some(self) }],
    2 [] [],
    3 [] [],
    4 [] []
}
impl<U: UFull, B: BkN> SingleThreadResume for Min<U, B, 1> {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), TErr> { SingleThreadResume::resume(&mut self.0, s) }
}
impl<U: UFull, B: BkN> MultiThreadResume for Min<U, B, 1> {
    fn resume(&mut self) -> Result<(), TErr> { MultiThreadResume::resume(&mut self.0) }
    fn clear_resume_actions(&mut self) -> Result<(), TErr> { self.0.clear_resume_actions() }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), TErr> { self.0.set_resume_action_continue(t, s) }
}
impl<U: UFull, B: BkN> Breakpoints for Min<U, B, 0> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> { Some(self) }
}
impl<U: UFull, B: BkN> SwBreakpoint for Min<U, B, 0> {
    fn add_sw_breakpoint(&mut self, a: U, k: B) -> TR<bool, U, B, 0> { self.0.add_sw_breakpoint(a, TBk(k.n())) }
    fn remove_sw_breakpoint(&mut self, a: U, k: B) -> TR<bool, U, B, 0> { self.0.remove_sw_breakpoint(a, TBk(k.n())) }
}
impl<U: UFull, B: BkN> Breakpoints for Min<U, B, 2> {}
impl<U: UFull, B: BkN> HostIo for Min<U, B, 2> {}
impl<U: UFull, B: BkN> ExtendedMode for Min<U, B, 2> {
    fn run(&mut self, f: Option<&[u8]>, a: Args<'_, '_>) -> TR<Pid, U, B, 2> { self.0.run(f, a) }
    fn attach(&mut self, p: Pid) -> TR<(), U, B, 2> { self.0.attach(p) }
    fn query_if_attached(&mut self, p: Pid) -> TR<AttachKind, U, B, 2> { self.0.query_if_attached(p) }
    fn kill(&mut self, p: Option<Pid>) -> TR<ShouldTerminate, U, B, 2> { self.0.kill(p) }
    fn restart(&mut self) -> Result<(), TErr> { self.0.restart() }
}
impl<U: UFull, B: BkN> Tracepoints for Min<U, B, 2> {
    fn tracepoints_init(&mut self) -> TR<(), U, B, 2> { self.0.tracepoints_init() }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TR<(), U, B, 2> { self.0.tracepoint_create_begin(t) }
    fn tracepoint_create_continue(&mut self, t: Tracepoint, a: &TracepointAction<'_, U>) -> TR<(), U, B, 2> { self.0.tracepoint_create_continue(t, a) }
    fn tracepoint_create_complete(&mut self, t: Tracepoint) -> TR<(), U, B, 2> { self.0.tracepoint_create_complete(t) }
    fn tracepoint_status(&self, t: Tracepoint, a: U) -> TR<TracepointStatus, U, B, 2> { self.0.tracepoint_status(t, a) }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> { self.0.tracepoint_enumerate_state() }
    fn tracepoint_enumerate_start(&mut self, t: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<U>)) -> TR<TracepointEnumerateStep<U>, U, B, 2> { self.0.tracepoint_enumerate_start(t, f) }
    fn tracepoint_enumerate_action(&mut self, t: Tracepoint, s: u64, f: &mut dyn FnMut(&TracepointAction<'_, U>)) -> TR<TracepointEnumerateStep<U>, U, B, 2> { self.0.tracepoint_enumerate_action(t, s, f) }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TR<(), U, B, 2> { self.0.trace_buffer_configure(c) }
    fn trace_buffer_request(&mut self, o: u64, l: usize, f: &mut dyn FnMut(&mut [u8])) -> TR<(), U, B, 2> { self.0.trace_buffer_request(o, l, f) }
    fn trace_experiment_status(&self, f: &mut dyn FnMut(ExperimentStatus<'_>)) -> TR<(), U, B, 2> { self.0.trace_experiment_status(f) }
    fn trace_experiment_info(&self, f: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TR<(), U, B, 2> { self.0.trace_experiment_info(f) }
    fn trace_experiment_start(&mut self) -> TR<(), U, B, 2> { self.0.trace_experiment_start() }
    fn trace_experiment_stop(&mut self) -> TR<(), U, B, 2> { self.0.trace_experiment_stop() }
    fn select_frame(&mut self, fr: FrameRequest<U>, f: &mut dyn FnMut(FrameDescription)) -> TR<(), U, B, 2> { self.0.select_frame(fr, f) }
}

/// a connection with only the mandatory methods
struct MinConn(MockConn);
impl Connection for MinConn {
    type Error = CErr;
    fn write(&mut self, b: u8) -> Result<(), CErr> { self.0.write(b) }
    fn flush(&mut self) -> Result<(), CErr> { self.0.flush() }
}

fn session<U: UFull, B: BkN + 'static>(v: u8, st: St, cs: Cs, buf: &Buf) -> Result<Box<dyn Stub>, String> {
    let t = MockTarget::<U>::new(st);
    let c = MinConn(MockConn(cs));
    macro_rules! go { ($($v:literal)*) => { match v { $($v => Box::new(Sess::start(Min::<U, B, $v>(t, PhantomData), c, buf)?) as Box<dyn Stub>,)* _ => unreachable!() } } }
    Ok(go!(0 1 2 3 4))
}
const VNAMES: &[&str] = &["a target with memory, registers and software breakpoints", "a target that can be resumed", "extensions without their optional parts", "a target with memory and registers only", "an architecture that describes itself"];

pub fn p38(s: &mut Src, c: &mut Ctx) -> R {
    const PLAN38: Plan = Plan { fams: &[(Fam::Kill, 1), (Fam::Detach, 1), (Fam::NoAck, 2), (Fam::Resume, 6), (Fam::Feat, 4), (Fam::Unknown, 2), (Fam::Lldb, 3), (Fam::Xml, 3), (Fam::Bp, 4)], ops: 14, ctrlc: 4, bg: 2, ..PLAN };
    macro_rules! plan { ($v:literal) => { Plan { tweak: |_, c| {
        let m = c.multi();
        let keep = [F::XmlOvr, F::LldbOvr].map(|f| (f, c.on(f)));
        *c = Cfg(0).with(F::Multi, m);
        for f in [F::NoAck, F::XUp, F::RStub, F::Rle, F::UseXml, F::UseLldb] { c.set(f, true) }
        let on: &[F] = match $v { 0 => &[F::Bp, F::Sw], 1 => &[F::Guard, F::Resume], 2 => &[F::Guard, F::Bp, F::Ext, F::HostIo, F::Trace], 4 => &[F::Guard], _ => &[] };
        for f in on { c.set(*f, true) }
        if $v == 4 { for (f, on) in keep { c.set(f, on) } }
    }, setup: |s, u| { u.beh.plain = true; if $v != 4 { u.xml = None; u.lldb = None } if u.bits == 16 || u.bits == 64 && s.chance(1, 3) { u.bits = 32; u.beh = gen_beh(s, 32); u.beh.plain = true } u.bk_mode = if u.bits == 32 { 2 } else { 1 }; }, ..PLAN38 } } }
    let v = match s.idx % 16 { 0..=3 => 0, 4..=8 => 1, 9..=12 => 2, 13 | 14 => 4, _ => 3u8 };
    let h = history(s, c, &match v { 0 => plan!(0), 1 => plan!(1), 2 => plan!(2), 4 => plan!(4), _ => plan!(3) })?;
    let (st, cs) = h.setup.state();
    let mut stub = match h.setup.bits {
        32 => session::<u32, ()>(v, st.clone(), cs.clone(), &h.setup.buf),
        _ => session::<u64, usize>(v, st.clone(), cs.clone(), &h.setup.buf),
    }.map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    let got = replay(&mut *stub, &st, &cs, &h.script);
    // what the default methods answer is not recorded
    let want: Vec<Seen> = h.seen.iter().map(|x| Seen { calls: x.calls.iter().filter(|c| !matches!(c.k, K::Alive(_) | K::OnStart)).cloned().collect(), ..x.clone() }).collect();
    diff("default", &format!("{} ({}), compared with a target that spells every documented default out", VNAMES[v as usize], if h.setup.cfg.multi() { "multi-threaded" } else { "single-threaded" }), &h.script, &want, &got)?;
    // the types of architectures that do not care
    let k = match s.below(3) { 0 => 0, 1 => s.below(8), _ => s.num(64) } as usize;
    check!(<usize as BreakpointKind>::from_usize(k) == Some(k), "kind", "the breakpoint kind {} becomes {:?} as usize", k, <usize as BreakpointKind>::from_usize(k));
    check!(<() as BreakpointKind>::from_usize(k).is_some() == (k == 0), "kind", "the breakpoint kind {} becomes {:?} as ()", k, <() as BreakpointKind>::from_usize(k));
    check!(<() as RegId>::from_raw_id(k).is_none(), "reg-id", "register {} exists without register ids", k);
    check!(<MA<U32, ()> as Arch>::target_description_xml().is_none() && <MA<U32, ()> as Arch>::lldb_register_info(k).is_none(), "arch", "an architecture describes itself by default");
    let _ = VRegs::<u32>::default().pc();
    // a bulk write without an own implementation is byte by byte, up to the first failure
    let data: Vec<u8> = (0..s.usize(40)).map(|_| s.raw() as u8).collect();
    let at = s.below(60);
    let cs2: Cs = Default::default();
    cs2.borrow_mut().fail_at = Some((at, 7, false));
    let mut mc = MinConn(MockConn(cs2.clone()));
    let r = mc.write_all(&data);
    let k = data.len().min(at as usize);
    check!(r.is_err() == (k < data.len()) && cs2.borrow().out == data[..k], "write-all", "write_all of {} with a failure at operation {}: {:?}, {} written", show(&data), at, r, show(&cs2.borrow().out));
    if at as usize > data.len() { check!(mc.on_session_start().is_ok() && cs2.borrow().ops == data.len() as u64, "session-start", "the default session start hook does something") }
    c.label(VNAMES[v as usize]);
    if got.len() > 1 || v == 3 { c.nontrivial(hash_bytes(format!("{:?}{}", h.script, v).as_bytes())) }
    Ok(())
}
type U32 = u32;
