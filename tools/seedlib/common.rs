//! A small scripted target and client for demonstrations. Nothing here has effects outside this process.
#![allow(dead_code, unused_imports)]
pub use gdbstub::arch::lldb;
pub use gdbstub::arch::{Arch, RegId, Registers};
pub use gdbstub::common::*;
pub use gdbstub::conn::*;
pub use gdbstub::stub::state_machine::GdbStubStateMachine as SM;
pub use gdbstub::stub::*;
pub use gdbstub::target::ext::auxv::*;
pub use gdbstub::target::ext::base::multithread::*;
pub use gdbstub::target::ext::base::reverse_exec::*;
pub use gdbstub::target::ext::base::single_register_access::*;
pub use gdbstub::target::ext::base::singlethread::*;
pub use gdbstub::target::ext::base::*;
pub use gdbstub::target::ext::breakpoints::*;
pub use gdbstub::target::ext::catch_syscalls::*;
pub use gdbstub::target::ext::exec_file::*;
pub use gdbstub::target::ext::extended_mode::*;
pub use gdbstub::target::ext::host_io::*;
pub use gdbstub::target::ext::libraries::*;
pub use gdbstub::target::ext::lldb_register_info_override as lro;
pub use gdbstub::target::ext::memory_map::*;
pub use gdbstub::target::ext::monitor_cmd::*;
pub use gdbstub::target::ext::section_offsets::*;
pub use gdbstub::target::ext::target_description_xml_override::*;
pub use gdbstub::target::ext::thread_extra_info::*;
pub use gdbstub::target::ext::tracepoints::*;
pub use gdbstub::target::{Target, TargetError, TargetResult};
pub use std::cell::RefCell;
pub use std::num::NonZeroUsize;

thread_local! { pub static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
#[macro_export]
macro_rules! log { ($($t:tt)*) => { $crate::common::LOG.with(|l| l.borrow_mut().push(format!($($t)*))) } }
/// everything the target was asked since the last call
pub fn calls() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Regs(pub Vec<u8>);
impl Registers for Regs {
    type ProgramCounter = u64;
    fn pc(&self) -> u64 { 0 }
    fn gdb_serialize(&self, mut w: impl FnMut(Option<u8>)) { for b in &self.0 { w(Some(*b)) } }
    fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> { if bytes.len() > 64 { return Err(()) } self.0 = bytes.to_vec(); Ok(()) }
}
#[derive(Debug, Clone, Copy)]
pub struct Reg(pub usize);
impl RegId for Reg {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        match id { 0..=15 => Some((Reg(id), NonZeroUsize::new(8))), 16..=19 => Some((Reg(id), NonZeroUsize::new(80))), 20..=29 => Some((Reg(id), None)), _ => None }
    }
}
pub enum A {}
impl Arch for A {
    type Usize = u64;
    type Registers = Regs;
    type BreakpointKind = usize;
    type RegId = Reg;
    fn target_description_xml() -> Option<&'static str> { Some(XML) }
    fn lldb_register_info(id: usize) -> Option<lldb::RegisterInfo<'static>> {
        Some(if id >= 3 { lldb::RegisterInfo::Done } else { lldb::RegisterInfo::Register(lldb::Register {
            name: "r", alt_name: (id > 0).then_some(if id == 2 { "r" } else { "alt" }), bitsize: 64, offset: 8 * id, encoding: lldb::Encoding::Sint, format: lldb::Format::VectorFloat32,
            set: "General", gcc: (id == 1).then_some(10), dwarf: (id == 2).then_some(9), generic: (id == 2).then_some(lldb::Generic::Arg8),
            container_regs: (id == 1).then_some(&[10, 11]), invalidate_regs: (id == 2).then_some(&[1, 2, 255]),
        }) })
    }
}
pub const XML: &str = "<target><architecture>tiny</architecture><feature name=\"a\"/></target>";

/// what the byte at an address is
pub fn mem(a: u64) -> u8 { ((a ^ (a >> 8) ^ (a >> 16)).wrapping_mul(37).wrapping_add(11)) as u8 }

pub struct T {
    pub multi: bool,
    pub threads: Vec<usize>,
    pub resume: bool,
    pub swbp: bool,
    pub ext: bool,
    pub noack: bool,
    pub rle: bool,
    pub no_ext_parts: Vec<&'static str>,
    pub regs: Vec<u8>,
    pub mem_end: u64,
    pub short: usize,
    pub err: fn(&str) -> Option<TargetError<&'static str>>,
    pub hook: fn(&str, &mut [u8]) -> Option<usize>,
    pub attach: AttachKind,
    pub term: ShouldTerminate,
    pub offsets: fn() -> Offsets<u64>,
    pub ts: TracepointEnumerateState<u64>,
    pub tps: Vec<(NewTracepoint<u64>, Vec<TracepointAction<'static, u64>>, Vec<SourceTracepoint<'static, u64>>)>,
    pub status: fn(&mut dyn FnMut(ExperimentStatus<'_>)),
    pub info: fn(&mut dyn FnMut(ExperimentExplanation<'_>)),
    pub console: Vec<Vec<u8>>,
    pub object: Vec<u8>,
}
impl Default for T {
    fn default() -> T {
        T {
            multi: false, threads: vec![1, 2, 3], resume: true, swbp: true, ext: true, noack: true, rle: true, no_ext_parts: vec![], regs: (0..32).collect(), mem_end: u64::MAX, short: usize::MAX,
            err: |_| None, hook: |_, _| None, attach: AttachKind::Attach, term: ShouldTerminate::Yes, offsets: || Offsets::Segments { text_seg: 0x1000, data_seg: Some(0x20_0000) },
            ts: TracepointEnumerateState::default(), tps: vec![], status: |r| r(ExperimentStatus::Running), info: |_| (), console: vec![], object: (0..=255).collect(),
        }
    }
}
impl T {
    fn e(&self, k: &str) -> TargetResult<(), Self> { match (self.err)(k) { Some(e) => Err(e), None => Ok(()) } }
    fn f(&self, k: &str) -> Result<(), &'static str> { match (self.err)(k) { Some(TargetError::Fatal(e)) => Err(e), _ => Ok(()) } }
    fn h(&self, k: &str) -> HostIoResult<(), Self> {
        match (self.err)(k) {
            None => Ok(()),
            Some(TargetError::Fatal(e)) => Err(HostIoError::Fatal(e)),
            Some(TargetError::Errno(n)) => Err(HostIoError::Errno(match n { 2 => HostIoErrno::ENOENT, 13 => HostIoErrno::EACCES, 91 => HostIoErrno::ENAMETOOLONG, _ => HostIoErrno::EUNKNOWN })),
            Some(TargetError::NonFatal) => Err(HostIoError::Errno(HostIoErrno::EUNKNOWN)),
            Some(TargetError::Io(e)) => Err(HostIoError::from(e)),
            Some(_) => unreachable!(),
        }
    }
    fn on(&self, p: &str) -> bool { !self.no_ext_parts.contains(&p) }
    fn rd(&mut self, t: Option<Tid>, a: u64, d: &mut [u8]) -> TargetResult<usize, Self> {
        log!("read {} {:x}+{}", tid(t), a, d.len());
        self.e("read")?;
        let n = d.len().min(self.short).min(self.mem_end.saturating_sub(a) as usize);
        for (i, b) in d[..n].iter_mut().enumerate() { *b = mem(a.wrapping_add(i as u64)) }
        Ok(n)
    }
    fn object(&mut self, what: &str, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        log!("{} {:x},{:x}", what, off, len);
        self.e(what.split(' ').next().unwrap())?;
        let o = &self.object;
        let off = (off as usize).min(o.len());
        let n = (o.len() - off).min(len).min(buf.len());
        buf[..n].copy_from_slice(&o[off..off + n]);
        Ok(n)
    }
}
pub fn tid(t: Option<Tid>) -> String { t.map_or("-".into(), |t| t.to_string()) }
pub fn hx(b: &[u8]) -> String { b.iter().map(|b| format!("{:02x}", b)).collect() }
fn sg(s: Option<Signal>) -> String { s.map_or("none".into(), |s| s.0.to_string()) }

impl Target for T {
    type Arch = A;
    type Error = &'static str;
    fn base_ops(&mut self) -> BaseOps<'_, A, &'static str> { if self.multi { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { true }
    fn use_no_ack_mode(&self) -> bool { self.noack }
    fn use_rle(&self) -> bool { self.rle }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { Some(self) }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> { Some(self) }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> { if self.ext { Some(self) } else { None } }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> { Some(self) }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> { Some(self) }
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> { if self.on("xmlovr") { Some(self) } else { None } }
    fn support_lldb_register_info_override(&mut self) -> Option<lro::LldbRegisterInfoOverrideOps<'_, Self>> { None }
    fn support_memory_map(&mut self) -> Option<MemoryMapOps<'_, Self>> { Some(self) }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> { Some(self) }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> { Some(self) }
    fn support_exec_file(&mut self) -> Option<ExecFileOps<'_, Self>> { Some(self) }
    fn support_auxv(&mut self) -> Option<AuxvOps<'_, Self>> { Some(self) }
    fn support_libraries_svr4(&mut self) -> Option<LibrariesSvr4Ops<'_, Self>> { Some(self) }
}
impl SingleThreadBase for T {
    fn read_registers(&mut self, r: &mut Regs) -> TargetResult<(), Self> { log!("g -"); self.e("g")?; r.0 = self.regs.clone(); Ok(()) }
    fn write_registers(&mut self, r: &Regs) -> TargetResult<(), Self> { log!("G - {}", hx(&r.0)); self.e("G") }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> { Some(self) }
    fn read_addrs(&mut self, a: u64, d: &mut [u8]) -> TargetResult<usize, Self> { self.rd(None, a, d) }
    fn write_addrs(&mut self, a: u64, d: &[u8]) -> TargetResult<(), Self> { log!("write - {:x} {}", a, hx(d)); self.e("write") }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> { if self.resume { Some(self) } else { None } }
}
impl MultiThreadBase for T {
    fn read_registers(&mut self, r: &mut Regs, t: Tid) -> TargetResult<(), Self> { log!("g {}", t); self.e("g")?; r.0 = self.regs.clone(); Ok(()) }
    fn write_registers(&mut self, r: &Regs, t: Tid) -> TargetResult<(), Self> { log!("G {} {}", t, hx(&r.0)); self.e("G") }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> { Some(self) }
    fn read_addrs(&mut self, a: u64, d: &mut [u8], t: Tid) -> TargetResult<usize, Self> { self.rd(Some(t), a, d) }
    fn write_addrs(&mut self, a: u64, d: &[u8], t: Tid) -> TargetResult<(), Self> { log!("write {} {:x} {}", t, a, hx(d)); self.e("write") }
    fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), &'static str> { for t in &self.threads { f(Tid::new(*t).unwrap()) } self.f("list") }
    fn is_thread_alive(&mut self, t: Tid) -> Result<bool, &'static str> { log!("alive {}", t); self.f("alive")?; Ok(self.threads.contains(&t.get())) }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> { if self.resume { Some(self) } else { None } }
    fn support_thread_extra_info(&mut self) -> Option<ThreadExtraInfoOps<'_, Self>> { Some(self) }
}
impl ThreadExtraInfo for T {
    fn thread_extra_info(&self, t: Tid, buf: &mut [u8]) -> Result<usize, &'static str> {
        log!("extra {}", t);
        self.f("extra")?;
        if let Some(n) = (self.hook)("extra", buf) { return Ok(n) }
        let s = format!("thread number {}", t);
        let n = s.len().min(buf.len());
        buf[..n].copy_from_slice(&s.as_bytes()[..n]);
        Ok(n)
    }
}
impl SingleRegisterAccess<()> for T {
    fn read_register(&mut self, _: (), r: Reg, buf: &mut [u8]) -> TargetResult<usize, Self> { log!("p - {} {}", r.0, buf.len()); self.e("p")?; if let Some(n) = (self.hook)("p", buf) { return Ok(n) } let n = buf.len().min(8); for i in 0..n { buf[i] = (r.0 * 16 + i) as u8 } Ok(n) }
    fn write_register(&mut self, _: (), r: Reg, v: &[u8]) -> TargetResult<(), Self> { log!("P - {} {}", r.0, hx(v)); self.e("P") }
}
impl SingleRegisterAccess<Tid> for T {
    fn read_register(&mut self, t: Tid, r: Reg, buf: &mut [u8]) -> TargetResult<usize, Self> { log!("p {} {} {}", t, r.0, buf.len()); self.e("p")?; if let Some(n) = (self.hook)("p", buf) { return Ok(n) } let n = buf.len().min(8); for i in 0..n { buf[i] = (r.0 * 16 + i) as u8 } Ok(n) }
    fn write_register(&mut self, t: Tid, r: Reg, v: &[u8]) -> TargetResult<(), Self> { log!("P {} {} {}", t, r.0, hx(v)); self.e("P") }
}
impl SingleThreadResume for T {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), &'static str> { log!("cont {}", sg(s)); self.f("resume") }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> { if self.on("step") { Some(self) } else { None } }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> { if self.on("range") { Some(self) } else { None } }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> { Some(self) }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> { Some(self) }
}
impl SingleThreadSingleStep for T { fn step(&mut self, s: Option<Signal>) -> Result<(), &'static str> { log!("step {}", sg(s)); self.f("step") } }
impl SingleThreadRangeStepping for T { fn resume_range_step(&mut self, a: u64, b: u64) -> Result<(), &'static str> { log!("range {:x},{:x}", a, b); self.f("range") } }
impl ReverseStep<()> for T { fn reverse_step(&mut self, _: ()) -> Result<(), &'static str> { log!("rstep -"); self.f("rstep") } }
impl ReverseCont<()> for T { fn reverse_cont(&mut self) -> Result<(), &'static str> { log!("rcont"); self.f("rcont") } }
impl ReverseStep<Tid> for T { fn reverse_step(&mut self, t: Tid) -> Result<(), &'static str> { log!("rstep {}", t); self.f("rstep") } }
impl ReverseCont<Tid> for T { fn reverse_cont(&mut self) -> Result<(), &'static str> { log!("rcont"); self.f("rcont") } }
impl MultiThreadResume for T {
    fn resume(&mut self) -> Result<(), &'static str> { log!("go"); self.f("resume") }
    fn clear_resume_actions(&mut self) -> Result<(), &'static str> { log!("clear"); self.f("clear") }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), &'static str> { log!("cont {} {}", t, sg(s)); self.f("cont") }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> { if self.on("step") { Some(self) } else { None } }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> { if self.on("range") { Some(self) } else { None } }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> { Some(self) }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> { Some(self) }
}
impl MultiThreadSingleStep for T { fn set_resume_action_step(&mut self, t: Tid, s: Option<Signal>) -> Result<(), &'static str> { log!("step {} {}", t, sg(s)); self.f("step") } }
impl MultiThreadRangeStepping for T { fn set_resume_action_range_step(&mut self, t: Tid, a: u64, b: u64) -> Result<(), &'static str> { log!("range {} {:x},{:x}", t, a, b); self.f("range") } }
impl Breakpoints for T {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> { if self.swbp { Some(self) } else { None } }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> { if self.on("hw") { Some(self) } else { None } }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> { if self.on("watch") { Some(self) } else { None } }
}
impl SwBreakpoint for T {
    fn add_sw_breakpoint(&mut self, a: u64, k: usize) -> TargetResult<bool, Self> { log!("+sw {:x} {}", a, k); self.e("bp")?; Ok(a < 0x8000) }
    fn remove_sw_breakpoint(&mut self, a: u64, k: usize) -> TargetResult<bool, Self> { log!("-sw {:x} {}", a, k); self.e("bp")?; Ok(a < 0x8000) }
}
impl HwBreakpoint for T {
    fn add_hw_breakpoint(&mut self, a: u64, k: usize) -> TargetResult<bool, Self> { log!("+hw {:x} {}", a, k); self.e("bp")?; Ok(a < 0x8000) }
    fn remove_hw_breakpoint(&mut self, a: u64, k: usize) -> TargetResult<bool, Self> { log!("-hw {:x} {}", a, k); self.e("bp")?; Ok(a < 0x8000) }
}
impl HwWatchpoint for T {
    fn add_hw_watchpoint(&mut self, a: u64, l: u64, k: WatchKind) -> TargetResult<bool, Self> { log!("+w {:x} {} {:?}", a, l, k); self.e("bp")?; Ok(a < 0x8000) }
    fn remove_hw_watchpoint(&mut self, a: u64, l: u64, k: WatchKind) -> TargetResult<bool, Self> { log!("-w {:x} {} {:?}", a, l, k); self.e("bp")?; Ok(a < 0x8000) }
}
impl MonitorCmd for T {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ConsoleOutput<'_>) -> Result<(), &'static str> {
        log!("monitor {}", hx(cmd));
        for c in &self.console { if c.is_empty() { out.flush() } else { out.write_raw(c) } }
        self.f("monitor")
    }
}
impl ExtendedMode for T {
    fn run(&mut self, f: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> { let v: Vec<String> = args.map(hx).collect(); log!("run {:?} {:?}", f.map(hx), v); self.e("run")?; Ok(Pid::new(0x1234).unwrap()) }
    fn attach(&mut self, p: Pid) -> TargetResult<(), Self> { log!("attach {}", p); self.e("attach") }
    fn query_if_attached(&mut self, p: Pid) -> TargetResult<AttachKind, Self> { log!("attached? {}", p); self.e("query")?; Ok(match self.attach { AttachKind::Attach => AttachKind::Attach, AttachKind::Run => AttachKind::Run }) }
    fn kill(&mut self, p: Option<Pid>) -> TargetResult<ShouldTerminate, Self> { log!("kill {:?}", p); self.e("kill")?; Ok(match self.term { ShouldTerminate::Yes => ShouldTerminate::Yes, ShouldTerminate::No => ShouldTerminate::No }) }
    fn restart(&mut self) -> Result<(), &'static str> { log!("restart"); self.f("restart") }
    fn on_start(&mut self) -> Result<(), &'static str> { log!("on_start"); self.f("on_start") }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> { Some(self) }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> { Some(self) }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> { Some(self) }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> { Some(self) }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> { if self.on("curpid") { Some(self) } else { None } }
}
impl ConfigureAslr for T { fn cfg_aslr(&mut self, e: bool) -> TargetResult<(), Self> { log!("aslr {}", e); self.e("aslr") } }
impl ConfigureEnv for T {
    fn set_env(&mut self, k: &[u8], v: Option<&[u8]>) -> TargetResult<(), Self> { log!("env {}={:?}", hx(k), v.map(hx)); self.e("env") }
    fn remove_env(&mut self, k: &[u8]) -> TargetResult<(), Self> { log!("-env {}", hx(k)); self.e("env") }
    fn reset_env(&mut self) -> TargetResult<(), Self> { log!("env reset"); self.e("env") }
}
impl ConfigureStartupShell for T { fn cfg_startup_with_shell(&mut self, e: bool) -> TargetResult<(), Self> { log!("shell {}", e); self.e("shell") } }
impl ConfigureWorkingDir for T { fn cfg_working_dir(&mut self, d: Option<&[u8]>) -> TargetResult<(), Self> { log!("wd {:?}", d.map(hx)); self.e("wd") } }
impl CurrentActivePid for T { fn current_active_pid(&mut self) -> Result<Pid, &'static str> { log!("curpid"); self.f("curpid")?; Ok(Pid::new(0x1234).unwrap()) } }
impl SectionOffsets for T { fn get_section_offsets(&mut self) -> Result<Offsets<u64>, &'static str> { self.f("offsets")?; Ok((self.offsets)()) } }
impl TargetDescriptionXmlOverride for T {
    fn target_description_xml(&self, annex: &[u8], off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        log!("xml {} {:x},{:x}", hx(annex), off, len);
        self.e("xml")?;
        let off = (off as usize).min(self.object.len());
        let n = (self.object.len() - off).min(len).min(buf.len());
        buf[..n].copy_from_slice(&self.object[off..off + n]);
        Ok(n)
    }
}
impl MemoryMap for T { fn memory_map_xml(&self, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { log!("memmap {:x},{:x}", off, len); self.e("memmap")?; let o = (off as usize).min(self.object.len()); let n = (self.object.len() - o).min(len).min(buf.len()); buf[..n].copy_from_slice(&self.object[o..o + n]); Ok(n) } }
impl ExecFile for T { fn get_exec_file(&self, p: Option<Pid>, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { log!("exec {:?} {:x},{:x}", p, off, len); self.e("exec")?; let o = (off as usize).min(self.object.len()); let n = (self.object.len() - o).min(len).min(buf.len()); buf[..n].copy_from_slice(&self.object[o..o + n]); Ok(n) } }
impl Auxv for T { fn get_auxv(&self, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { log!("auxv {:x},{:x}", off, len); self.e("auxv")?; let off = (self.hook)("auxv", &mut off.to_be_bytes()).map_or(off, |v| v as u64); let o = (off as usize).min(self.object.len()); let n = (self.object.len() - o).min(len).min(buf.len()); buf[..n].copy_from_slice(&self.object[o..o + n]); Ok(n) } }
impl LibrariesSvr4 for T { fn get_libraries_svr4(&self, off: u64, len: usize, buf: &mut [u8]) -> TargetResult<usize, Self> { log!("svr4 {:x},{:x}", off, len); self.e("svr4")?; let o = (off as usize).min(self.object.len()); let n = (self.object.len() - o).min(len).min(buf.len()); buf[..n].copy_from_slice(&self.object[o..o + n]); Ok(n) } }
impl CatchSyscalls for T {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, u64>>) -> TargetResult<(), Self> { let v: Option<Vec<u64>> = f.map(|f| f.collect()); log!("catch {:x?}", v); self.e("catch") }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> { log!("catch off"); self.e("catch") }
}
impl HostIo for T {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> { Some(self) }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> { Some(self) }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> { Some(self) }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> { Some(self) }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> { Some(self) }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> { Some(self) }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> { Some(self) }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> { Some(self) }
}
impl HostIoOpen for T { fn open(&mut self, f: &[u8], fl: HostIoOpenFlags, m: HostIoOpenMode) -> HostIoResult<u32, Self> { log!("open {} {:?} {:?}", hx(f), fl, m); self.h("open")?; Ok(0x1f) } }
impl HostIoClose for T { fn close(&mut self, fd: u32) -> HostIoResult<(), Self> { log!("close {}", fd); self.h("close") } }
impl HostIoPread for T { fn pread(&mut self, fd: u32, count: usize, off: u64, buf: &mut [u8]) -> HostIoResult<usize, Self> { log!("pread {} {:x} {:x} {}", fd, count, off, buf.len()); self.h("pread")?; let o = (off as usize).min(self.object.len()); let n = (self.object.len() - o).min(count).min(buf.len()); buf[..n].copy_from_slice(&self.object[o..o + n]); Ok(n) } }
impl HostIoPwrite for T { fn pwrite(&mut self, fd: u32, off: u64, d: &[u8]) -> HostIoResult<u64, Self> { log!("pwrite {} {:x} {}", fd, off, hx(d)); self.h("pwrite")?; Ok(d.len() as u64) } }
impl HostIoFstat for T { fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> {
    log!("fstat {}", fd);
    self.h("fstat")?;
    Ok(HostIoStat { st_dev: 1, st_ino: 2, st_mode: HostIoOpenMode::S_IRUSR, st_nlink: 4, st_uid: 5, st_gid: 6, st_rdev: 7, st_size: 0x0807060504030201, st_blksize: 9, st_blocks: 10, st_atime: 11, st_mtime: 12, st_ctime: 13 })
} }
impl HostIoUnlink for T { fn unlink(&mut self, f: &[u8]) -> HostIoResult<(), Self> { log!("unlink {}", hx(f)); self.h("unlink") } }
impl HostIoReadlink for T { fn readlink(&mut self, f: &[u8], buf: &mut [u8]) -> HostIoResult<usize, Self> { log!("readlink {}", hx(f)); self.h("readlink")?; let n = self.object.len().min(buf.len()); buf[..n].copy_from_slice(&self.object[..n]); Ok(n) } }
impl HostIoSetfs for T { fn setfs(&mut self, f: FsKind) -> HostIoResult<(), Self> { log!("setfs {:?}", f); self.h("setfs") } }
impl Tracepoints for T {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> { log!("tinit"); self.e("tinit") }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<u64>) -> TargetResult<(), Self> { log!("tbegin {:x} {:x} {} {:x} {:x}", t.number.0, t.addr, t.enabled, t.step_count, t.pass_count); self.e("tbegin") }
    fn tracepoint_create_continue(&mut self, tp: Tracepoint, a: &TracepointAction<'_, u64>) -> TargetResult<(), Self> {
        match a {
            TracepointAction::Registers { mask } => log!("tact {:x} R {}", tp.0, hx(mask)),
            TracepointAction::Memory { basereg, offset, length } => log!("tact {:x} M {:?} {:x} {:x}", tp.0, basereg, offset, length),
            TracepointAction::Expression { expr } => log!("tact {:x} X {}", tp.0, hx(expr)),
        }
        self.e("tact")
    }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TargetResult<(), Self> { log!("tdone {:x}", tp.0); self.e("tdone") }
    fn tracepoint_status(&self, tp: Tracepoint, a: u64) -> TargetResult<TracepointStatus, Self> { log!("tstat {:x} {:x}", tp.0, a); self.e("tstat")?; Ok(TracepointStatus { hit_count: 0x123, bytes_used: 0x456 }) }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<u64> { &mut self.ts }
    fn tracepoint_enumerate_start(&mut self, tp: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<u64>)) -> TargetResult<TracepointEnumerateStep<u64>, Self> {
        self.e("tenum")?;
        let i = match tp { None => 0, Some(t) => self.tps.iter().position(|x| x.0.number == t).unwrap_or(usize::MAX) };
        let Some(t) = self.tps.get(i) else { return Ok(TracepointEnumerateStep::Done) };
        f(&t.0);
        Ok(if !t.1.is_empty() { TracepointEnumerateStep::Action } else if !t.2.is_empty() { TracepointEnumerateStep::Source } else { self.next(i) })
    }
    fn tracepoint_enumerate_action(&mut self, tp: Tracepoint, step: u64, f: &mut dyn FnMut(&TracepointAction<'_, u64>)) -> TargetResult<TracepointEnumerateStep<u64>, Self> {
        self.e("tenum")?;
        let i = self.tps.iter().position(|x| x.0.number == tp).unwrap();
        let t = &self.tps[i];
        f(&t.1[step as usize]);
        Ok(if (step as usize) + 1 < t.1.len() { TracepointEnumerateStep::Action } else if !t.2.is_empty() { TracepointEnumerateStep::Source } else { self.next(i) })
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> { log!("tbuf {:?}", c); self.e("tbuf") }
    fn trace_buffer_request(&mut self, off: u64, len: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> {
        log!("tdata {:x} {:x}", off, len);
        self.e("tdata")?;
        let o = (off as usize).min(self.object.len());
        let n = (self.object.len() - o).min(len);
        if n > 0 { f(&mut self.object[o..o + n]) }
        Ok(())
    }
    fn trace_experiment_status(&self, r: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> { self.e("tstatus")?; (self.status)(r); Ok(()) }
    fn trace_experiment_info(&self, r: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> { self.e("tinfo")?; (self.info)(r); Ok(()) }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> { log!("tstart"); self.e("tstart") }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> { log!("tstop"); self.e("tstop") }
    fn select_frame(&mut self, fr: FrameRequest<u64>, r: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> {
        log!("frame {:x?}", fr);
        self.e("frame")?;
        if (self.hook)("frame-hit-first", &mut []).is_some() { r(FrameDescription::Hit(Tracepoint(0x2d))); r(FrameDescription::FrameNumber(0x1e)); return Ok(()) }
        if !matches!(fr, FrameRequest::Select(0)) { r(FrameDescription::FrameNumber((self.hook)("frame", &mut []).map_or(0x1e, |n| n as u64))); r(FrameDescription::Hit(Tracepoint(0x2d))) }
        Ok(())
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> { Some(self) }
}
impl T {
    fn next(&self, i: usize) -> TracepointEnumerateStep<u64> { match self.tps.get(i + 1) { Some(n) => TracepointEnumerateStep::Next { tp: n.0.number, addr: n.0.addr }, None => TracepointEnumerateStep::Done } }
}
impl TracepointSource for T {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, u64>) -> TargetResult<(), Self> { log!("tsrc {:x} {:x} {:?} {} {} {}", s.number.0, s.addr, s.kind, s.start, s.slen, hx(&s.bytes)); self.e("tsrc") }
    fn tracepoint_enumerate_source(&mut self, tp: Tracepoint, step: u64, f: &mut dyn FnMut(&SourceTracepoint<'_, u64>)) -> TargetResult<TracepointEnumerateStep<u64>, Self> {
        self.e("tenum")?;
        let i = self.tps.iter().position(|x| x.0.number == tp).unwrap();
        let t = &self.tps[i];
        f(&t.2[step as usize]);
        Ok(if (step as usize) + 1 < t.2.len() { TracepointEnumerateStep::Source } else { self.next(i) })
    }
}

/// an in-memory connection; `fail_at`: the n-th operation (write or flush) fails
#[derive(Default)]
pub struct C { pub out: Vec<u8>, pub flushed: usize, pub ops: usize, pub fail_at: Option<usize> }
impl C { fn op(&mut self) -> Result<(), &'static str> { self.ops += 1; if Some(self.ops) == self.fail_at { Err("connection lost") } else { Ok(()) } } }
impl Connection for C {
    type Error = &'static str;
    fn write(&mut self, b: u8) -> Result<(), Self::Error> { self.op()?; self.out.push(b); Ok(()) }
    fn flush(&mut self) -> Result<(), Self::Error> { self.op()?; self.flushed = self.out.len(); Ok(()) }
    fn on_session_start(&mut self) -> Result<(), Self::Error> { log!("session"); Ok(()) }
}
pub fn ck(b: &[u8]) -> u8 { b.iter().fold(0, |a, b| a.wrapping_add(*b)) }
pub fn pkt(b: impl AsRef<[u8]>) -> Vec<u8> { let b = b.as_ref(); let mut v = vec![b'$']; v.extend(b); v.extend(format!("#{:02x}", ck(b)).bytes()); v }

pub enum St<'a> { Live(SM<'a, T, C>), Dead(String) }
pub struct Sess<'a> { pub t: T, pub st: Option<St<'a>>, seen: usize, pub raw: Vec<u8> }
impl<'a> Sess<'a> {
    pub fn new(t: T, buf: &'a mut [u8]) -> Self { Self::with(t, C::default(), buf) }
    pub fn with(t: T, c: C, buf: &'a mut [u8]) -> Self { let n = buf.len(); Self::sized2(t, c, buf, n) }
    pub fn sized(t: T, buf: &'a mut [u8], n: usize) -> Self { Self::sized2(t, C::default(), buf, n) }
    fn sized2(mut t: T, c: C, buf: &'a mut [u8], n: usize) -> Self {
        calls();
        let st = match GdbStubBuilder::new(c).with_packet_buffer(buf).packet_buffer_size(n).build().unwrap().run_state_machine(&mut t) { Ok(s) => St::Live(s), Err(e) => St::Dead(e.to_string()) };
        Sess { t, st: Some(st), seen: 0, raw: vec![] }
    }
    pub fn kind(&self) -> String {
        match self.st.as_ref().unwrap() {
            St::Dead(e) => format!("dead: {}", e),
            St::Live(SM::Idle(_)) => "idle".into(),
            St::Live(SM::Running(_)) => "running".into(),
            St::Live(SM::CtrlCInterrupt(_)) => "ctrlc".into(),
            St::Live(SM::Disconnected(d)) => format!("disconnected: {:?}", d.get_reason()),
        }
    }
    pub fn byte(&mut self, b: u8) {
        let t = &mut self.t;
        let n = match self.st.take().unwrap() {
            St::Live(SM::Idle(g)) => match g.incoming_data(t, b) { Ok(s) => St::Live(s), Err(e) => St::Dead(e.to_string()) },
            St::Live(SM::Running(g)) => match g.incoming_data(t, b) { Ok(s) => St::Live(s), Err(e) => St::Dead(e.to_string()) },
            o => o,
        };
        self.st = Some(n);
    }
    pub fn bytes(&mut self, b: &[u8]) { for b in b { self.byte(*b) } }
    pub fn interrupted(&mut self, r: Option<MultiThreadStopReason<u64>>) {
        let t = &mut self.t;
        let n = match self.st.take().unwrap() {
            St::Live(SM::CtrlCInterrupt(g)) => match g.interrupt_handled(t, r) { Ok(s) => St::Live(s), Err(e) => St::Dead(e.to_string()) },
            o => o,
        };
        self.st = Some(n);
    }
    pub fn stop(&mut self, r: MultiThreadStopReason<u64>) -> String {
        let t = &mut self.t;
        let n = match self.st.take().unwrap() {
            St::Live(SM::Running(g)) => match g.report_stop(t, r) { Ok(s) => St::Live(s), Err(e) => St::Dead(e.to_string()) },
            o => o,
        };
        self.st = Some(n);
        self.reply()
    }
    pub fn out(&mut self) -> Vec<u8> {
        match self.st.as_mut().unwrap() {
            St::Dead(_) => vec![],
            St::Live(SM::Idle(g)) => g.borrow_conn().out.clone(),
            St::Live(SM::Running(g)) => g.borrow_conn().out.clone(),
            St::Live(SM::CtrlCInterrupt(g)) => g.borrow_conn().out.clone(),
            St::Live(SM::Disconnected(g)) => g.borrow_conn().out.clone(),
        }
    }
    /// the reply packets sent since last asked (run-length decoded, checksums verified), joined with '|'
    pub fn reply(&mut self) -> String {
        let out = self.out();
        self.raw = out.get(self.seen..).unwrap_or(&[]).to_vec();
        self.seen = out.len();
        replies(&self.raw).iter().map(|r| r.iter().map(|b| *b as char).collect::<String>()).collect::<Vec<_>>().join("|")
    }
    pub fn send(&mut self, b: impl AsRef<[u8]>) -> String { let p = pkt(b); self.bytes(&p); self.reply() }
    /// ask, and complain unless the answer is as expected
    pub fn want(&mut self, b: impl AsRef<[u8]>, want: &str) { let b = b.as_ref(); let got = self.send(b); check(&format!("reply to {}", String::from_utf8_lossy(b)), &got, &want.to_string()) }
    pub fn did(&mut self, want: &[&str]) { let got = calls(); check("calls", &got, &want.iter().map(|s| s.to_string()).collect()) }
}
pub fn check<X: PartialEq + std::fmt::Debug>(what: &str, got: &X, want: &X) { if got != want { println!("WRONG {}\n  got  {:?}\n  want {:?}", what, got, want); std::process::exit(1) } }
pub fn replies(mut d: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while let Some(i) = d.iter().position(|b| *b == b'$') {
        for b in &d[..i] { check("byte between packets", b, &b'+') }
        d = &d[i + 1..];
        let Some(j) = d.iter().position(|b| *b == b'#') else { println!("WRONG: packet without end {:?}", d); std::process::exit(1) };
        let body = &d[..j];
        if body.contains(&b'$') || d.len() < j + 3 { println!("WRONG: malformed packet {:?}", d); std::process::exit(1) }
        check("checksum", &String::from_utf8_lossy(&d[j + 1..j + 3]).to_string(), &format!("{:02x}", ck(body)));
        let (mut o, mut k) = (vec![], 0);
        while k < body.len() {
            if body[k] == b'*' && k > 0 && k + 1 < body.len() {
                let n = body[k + 1].wrapping_sub(29);
                check("repeat count is printable", &(body[k + 1] > 31 && body[k + 1] < 127 && n >= 3), &true);
                let c = *o.last().unwrap();
                for _ in 0..n { o.push(c) }
                k += 2;
            } else { o.push(body[k]); k += 1 }
        }
        v.push(o);
        d = &d[j + 3..];
    }
    v
}
