//! Drives a stub session through the public state machine API, hiding the generic parameters.

use crate::engine::catch;
use crate::mock::*;
use crate::tarch::*;
use gdbstub::arch::Arch;
use gdbstub::common::{Signal, Tid};
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine as SM;
use gdbstub::stub::*;
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use gdbstub::target::Target;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DR { Exited(u8), Terminated(u8), Disconnect, Kill }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CK { Init, Read, Write }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ErrInfo {
    pub is_target: bool,
    pub is_conn: bool,
    pub target: Option<u32>,
    pub conn: Option<(u32, CK)>,
    pub text: String,
}
impl ErrInfo {
    pub fn overflow(&self) -> bool { self.text.contains("oversized") }
    /// equality of what the API reports
    pub fn of(e: GdbStubError<TErr, CErr>) -> ErrInfo {
        let text = format!("{}", e);
        let (is_target, is_conn) = (e.is_target_error(), e.is_connection_error());
        let mut target = None;
        let mut conn = None;
        if is_target { target = e.into_target_error().map(|t| t.0) }
        else {
            conn = e.into_connection_error().map(|(c, k)| (c.0, match format!("{:?}", k).as_str() {
                "Init" => CK::Init,
                "Read" => CK::Read,
                _ => CK::Write,
            }));
        }
        ErrInfo { is_target, is_conn, target, conn, text }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kind { Idle, Running, CtrlC, Disc(DR), Dead(ErrInfo), Panicked(String) }
impl Kind {
    pub fn alive(&self) -> bool { matches!(self, Kind::Idle | Kind::Running | Kind::CtrlC) }
    pub fn name(&self) -> &'static str {
        match self { Kind::Idle => "idle", Kind::Running => "running", Kind::CtrlC => "ctrl-c", Kind::Disc(_) => "disconnected", Kind::Dead(_) => "error", Kind::Panicked(_) => "panic" }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum StopR {
    DoneStep, Exited(u8), Term(u8), Sig(u8), SigT(usize, u8), SwBreak(usize), HwBreak(usize),
    Watch(usize, BpK, u128), Replay(Option<usize>, bool), Sysc(Option<usize>, u128, bool),
}
impl StopR {
    pub fn tid(&self, multi_reason: bool) -> Option<usize> {
        let t = match self {
            StopR::SigT(t, _) | StopR::SwBreak(t) | StopR::HwBreak(t) | StopR::Watch(t, ..) => Some(*t),
            StopR::Replay(t, _) | StopR::Sysc(t, ..) => if multi_reason { *t } else { None },
            _ => None,
        };
        if multi_reason { t } else { t.map(|_| 1) }
    }
    fn build<Td, U: UInt>(&self, tid: impl Fn(usize) -> Td, otid: impl Fn(Option<usize>) -> Option<Td>) -> BaseStopReason<Td, U> {
        match self {
            StopR::DoneStep => BaseStopReason::DoneStep,
            StopR::Exited(c) => BaseStopReason::Exited(*c),
            StopR::Term(s) => BaseStopReason::Terminated(Signal(*s)),
            StopR::Sig(s) => BaseStopReason::Signal(Signal(*s)),
            StopR::SigT(t, s) => BaseStopReason::SignalWithThread { tid: tid(*t), signal: Signal(*s) },
            StopR::SwBreak(t) => BaseStopReason::SwBreak(tid(*t)),
            StopR::HwBreak(t) => BaseStopReason::HwBreak(tid(*t)),
            StopR::Watch(t, k, a) => BaseStopReason::Watch { tid: tid(*t), kind: match k { BpK::W => WatchKind::Write, BpK::R => WatchKind::Read, _ => WatchKind::ReadWrite }, addr: U::from128(*a) },
            StopR::Replay(t, b) => BaseStopReason::ReplayLog { tid: otid(*t), pos: if *b { ReplayLogPosition::Begin } else { ReplayLogPosition::End } },
            StopR::Sysc(t, n, e) => BaseStopReason::CatchSyscall { tid: otid(*t), number: U::from128(*n), position: if *e { CatchSyscallPosition::Entry } else { CatchSyscallPosition::Return } },
        }
    }
    pub fn multi<U: UInt>(&self) -> MultiThreadStopReason<U> {
        self.build(|t| Tid::new(t).unwrap(), |t| t.map(|t| Tid::new(t).unwrap()))
    }
    pub fn single<U: UInt>(&self) -> SingleThreadStopReason<U> {
        self.build(|_| (), |t| t.map(|_| ()))
    }
}

pub trait Stub {
    fn kind(&self) -> Kind;
    fn feed(&mut self, b: u8);
    /// report a stop (`multi`: as a multi-threaded stop reason)
    fn stop(&mut self, r: &StopR, multi: bool);
    fn interrupt(&mut self, r: Option<(&StopR, bool)>);
    fn to_idle(&mut self);
}

#[derive(Debug, Clone)]
pub enum Buf {
    /// supplied buffer (initial contents), optional packet_buffer_size
    Borrowed(Vec<u8>, Option<usize>),
    /// owned buffer, optional packet_buffer_size
    Owned(Option<usize>),
}
impl Buf {
    pub fn cap(&self) -> usize {
        match self {
            Buf::Borrowed(v, n) => n.unwrap_or(v.len()),
            Buf::Owned(n) => n.unwrap_or(4096),
        }
    }
    /// one the stub allocates, where it can
    pub fn owned(n: Option<usize>) -> Buf {
        if cfg!(feature = "std") { Buf::Owned(n) } else { Buf::Borrowed(vec![0; n.unwrap_or(4096)], None) }
    }
    pub fn fixed(&self) -> bool { matches!(self, Buf::Borrowed(..)) }
}

pub struct Sess<T: Target<Error = TErr>, C: Connection<Error = CErr>> {
    sm: Option<SM<'static, T, C>>,
    end: Option<Kind>,
    target: T,
    buf: *mut [u8],
}
impl<T: Target<Error = TErr>, C: Connection<Error = CErr>> Drop for Sess<T, C> {
    fn drop(&mut self) {
        self.sm = None;
        unsafe { drop(Box::from_raw(self.buf)) }
    }
}

fn dr(r: DisconnectReason) -> DR {
    match r {
        DisconnectReason::TargetExited(c) => DR::Exited(c),
        DisconnectReason::TargetTerminated(s) => DR::Terminated(s.0),
        DisconnectReason::Disconnect => DR::Disconnect,
        DisconnectReason::Kill => DR::Kill,
    }
}
pub fn disc_reason(r: DisconnectReason) -> DR { dr(r) }

impl<T: Target<Error = TErr>, C: Connection<Error = CErr>> Sess<T, C>
where
    <T::Arch as Arch>::Usize: UInt,
{
    pub fn start(target: T, conn: C, buf: &Buf) -> Result<Self, String> {
        #[cfg(feature = "std")]
        if let Buf::Owned(None) = buf { return Ok(Self::run(target, GdbStub::new(conn), Box::into_raw(Box::new([])))) }
        let (raw, builder) = Self::builder(conn, buf);
        let stub = match builder.build() {
            Ok(s) => s,
            Err(e) => {
                let s = format!("{:?}", e);
                unsafe { drop(Box::from_raw(raw)) }
                return Err(s);
            }
        };
        Ok(Self::run(target, stub, raw))
    }
    fn run(mut target: T, stub: GdbStub<'static, T, C>, raw: *mut [u8]) -> Self {
        let (mut sm, mut end) = (None, None);
        match catch(|| stub.run_state_machine(&mut target)) {
            Ok(Ok(s)) => sm = Some(s),
            Ok(Err(e)) => end = Some(Kind::Dead(ErrInfo::of(e))),
            Err(p) => end = Some(Kind::Panicked(p)),
        }
        Sess { sm, end, target, buf: raw }
    }
    pub fn builder(conn: C, buf: &Buf) -> (*mut [u8], GdbStubBuilder<'static, T, C>) {
        let (bytes, size, own) = match buf {
            Buf::Borrowed(v, n) => (v.clone(), *n, false),
            Buf::Owned(n) => (vec![], *n, true),
        };
        let raw: *mut [u8] = Box::into_raw(bytes.into_boxed_slice());
        let mut b = if raw.len() % 2 == 0 { GdbStub::builder(conn) } else { GdbStubBuilder::new(conn) };
        if !own { b = b.with_packet_buffer(unsafe { &mut *raw }) }
        if let Some(n) = size { b = b.packet_buffer_size(n) }
        (raw, b)
    }
    fn step(&mut self, f: impl FnOnce(SM<'static, T, C>, &mut T) -> Result<SM<'static, T, C>, GdbStubError<TErr, CErr>>) {
        let Some(sm) = self.sm.take() else { return };
        let t = &mut self.target;
        match catch(|| f(sm, t)) {
            Ok(Ok(s)) => self.sm = Some(s),
            Ok(Err(e)) => self.end = Some(Kind::Dead(ErrInfo::of(e))),
            Err(p) => self.end = Some(Kind::Panicked(p)),
        }
    }
}

impl<T: Target<Error = TErr>, C: Connection<Error = CErr>> Stub for Sess<T, C>
where
    <T::Arch as Arch>::Usize: UInt,
{
    fn kind(&self) -> Kind {
        if let Some(k) = &self.end { return k.clone() }
        match self.sm.as_ref().unwrap() {
            SM::Idle(_) => Kind::Idle,
            SM::Running(_) => Kind::Running,
            SM::CtrlCInterrupt(_) => Kind::CtrlC,
            SM::Disconnected(d) => Kind::Disc(dr(d.get_reason())),
        }
    }
    fn feed(&mut self, b: u8) {
        self.step(|sm, t| match sm {
            SM::Idle(s) => s.incoming_data(t, b),
            SM::Running(s) => s.incoming_data(t, b),
            other => Ok(other),
        })
    }
    fn stop(&mut self, r: &StopR, multi: bool) {
        self.step(|sm, t| match sm {
            SM::Running(s) => if multi { s.report_stop(t, r.multi()) } else { s.report_stop(t, r.single()) },
            other => Ok(other),
        })
    }
    fn interrupt(&mut self, r: Option<(&StopR, bool)>) {
        self.step(|sm, t| match sm {
            SM::CtrlCInterrupt(s) => match r {
                Some((r, true)) => s.interrupt_handled(t, Some(r.multi())),
                Some((r, false)) => s.interrupt_handled(t, Some(r.single())),
                None => s.interrupt_handled(t, None::<SingleThreadStopReason<<T::Arch as Arch>::Usize>>),
            },
            other => Ok(other),
        })
    }
    fn to_idle(&mut self) {
        self.step(|sm, _| match sm {
            SM::Disconnected(s) => Ok(s.return_to_idle()),
            other => Ok(other),
        })
    }
}

/// a plain mock session
pub fn mock_session(bits: u32, st: St, cs: Cs, buf: &Buf) -> Result<Box<dyn Stub>, String> {
    Ok(match bits {
        16 => Box::new(Sess::start(MockTarget::<u16>::new(st), MockConn(cs), buf)?),
        32 => Box::new(Sess::start(MockTarget::<u32>::new(st), MockConn(cs), buf)?),
        _ => Box::new(Sess::start(MockTarget::<u64>::new(st), MockConn(cs), buf)?),
    })
}
