//! Properties about how a session is set up and driven: P28 (connection failures), P32 (blocking
//! loop), P33 (buffers and logging), P35 (dynamic dispatch).

use crate::engine::*;
use crate::hist::*;
use crate::mock::*;
use crate::model::*;
use crate::rsp::*;
use crate::sess::*;
use crate::tarch::*;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::run_blocking::{BlockingEventLoop, Event, WaitForStopReasonError};
use gdbstub::stub::{MultiThreadStopReason, SingleThreadStopReason};
use gdbstub::target::Target;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

const FULL: Plan = Plan { focus: 0, fams: &[(Fam::Kill, 1), (Fam::Detach, 1), (Fam::NoAck, 1), (Fam::Resume, 8), (Fam::MemR, 3), (Fam::Monitor, 3), (Fam::Xfer, 3), (Fam::Feat, 2)], ctrlc: 6, ..PLAN };

fn build(r: Result<Box<dyn Stub>, String>) -> Result<Box<dyn Stub>, Fail> { r.map_err(|e| Fail { sig: "builder".into(), msg: e }) }

pub fn diff(sig: &str, what: &str, script: &[Step], want: &[Seen], got: &[Seen]) -> R {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let step = if i == 0 { "session start".to_string() } else { match &script[i - 1] { Step::Bytes(b) => show(b), x => format!("{:?}", x) } };
        check!(w.out == g.out, format!("{}-output", sig), "{}, step {} ({}): output\n{}\ninstead of\n{}", what, i, step, show(&g.out), show(&w.out));
        check!(w.calls == g.calls, format!("{}-calls", sig), "{}, step {} ({}): calls\n{:?}\ninstead of\n{:?}", what, i, step, g.calls, w.calls);
        check!(w.kind == g.kind, format!("{}-state", sig), "{}, step {} ({}): state {:?} instead of {:?}", what, i, step, g.kind, w.kind);
    }
    check!(want.len() == got.len(), format!("{}-length", sig), "{} / {} steps", want.len(), got.len());
    Ok(())
}

// ---------------------------------------------------------------------------------------- P28

pub fn p28(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &FULL)?;
    // where the operations on the connection fall
    let (st, cs) = h.setup.state();
    let mut stub = build(mock_session(h.setup.bits, st.clone(), cs.clone(), &h.setup.buf))?;
    let mut ends = vec![cs.borrow().ops];
    let mut lens = vec![cs.borrow().out.len()];
    for x in &h.script { do_step(&mut *stub, x); ends.push(cs.borrow().ops); lens.push(cs.borrow().out.len()); }
    let total = *ends.last().unwrap();
    if total == 0 { return Ok(()) }
    let code = 1 + s.below(1000) as u32;
    for _ in 0..1 + s.below(4) {
        let k = match s.below(6) { 0 => s.below(3).min(total - 1), 1 => total - 1, _ => s.below(total) };
        let step = ends.iter().position(|e| *e > k).unwrap();
        let (st, cs) = h.setup.state();
        // failing once or for good; the error of a further operation would differ
        let persistent = s.bool();
        cs.borrow_mut().fail_at = Some((k, code, persistent));
        let mut stub = build(mock_session(h.setup.bits, st.clone(), cs.clone(), &h.setup.buf))?;
        let seen = replay(&mut *stub, &st, &cs, &h.script);
        diff("before", "before the connection fails", &h.script, &h.seen[..step], &seen[..step])?;
        let (w, g) = (&h.seen[step], &seen[step]);
        let at = if step == 0 { "session start".to_string() } else { match &h.script[step - 1] { Step::Bytes(b) => show(b), x => format!("{:?}", x) } };
        let want_kind = if k == 0 { CK::Init } else { CK::Write };
        match &g.kind {
            Kind::Dead(e) => check!(e.is_conn && !e.is_target && e.conn == Some((code, want_kind)), "class", "operation {} of the connection failed with {} during {}, reported as {:?}", k, code, at, e),
            x => return fail("swallowed", format!("operation {} of the connection failed during {} but the session is {:?}", k, at, x)),
        }
        check!(w.out.starts_with(&g.out), "prefix", "wrote {} before the failure, without it {}", show(&g.out), show(&w.out));
        check!(w.calls.starts_with(&g.calls), "calls", "calls {:?} before the failure, without it {:?}", g.calls, w.calls);
        check!(cs.borrow().ops == k + 1, "retry", "operation {} of the connection failed during {}, but the connection was used {} more times", k, at, cs.borrow().ops - k - 1);
        for x in &seen[step + 1..] { check!(x.out.is_empty() && x.calls.is_empty(), "after", "something happened after the failure: {:?}", x); }
        c.nontrivial(mix(k, hash_bytes(&cs.borrow().out)));
        c.label(if k == 0 { "failure at start" } else if cs.borrow().flushed == cs.borrow().out.len() { "failure right after a flush" } else { "failure while writing or flushing" });
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P33

thread_local! {
    /// the level up to which this thread logs
    static LOG_MAX: Cell<log::LevelFilter> = const { Cell::new(log::LevelFilter::Off) };
    static LOG_KEEP: Cell<bool> = const { Cell::new(false) };
    static LOG_SINK: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static LOG_N: Cell<u64> = const { Cell::new(0) };
}
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata<'_>) -> bool { m.level() <= LOG_MAX.with(|l| l.get()) }
    fn log(&self, r: &log::Record<'_>) {
        if !self.enabled(r.metadata()) { return }
        let text = format!("{}", r.args());
        if LOG_KEEP.with(|k| k.get()) { LOG_SINK.with(|s| s.borrow_mut().push(text)) }
        LOG_N.with(|n| n.set(n.get() + 1));
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;
pub fn logging(max: log::LevelFilter) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| { let _ = log::set_logger(&LOGGER); log::set_max_level(log::LevelFilter::Trace); });
    LOG_MAX.with(|l| l.set(max));
}
/// Runs `f` with the log level of the whole process set: messages above it are not even formatted.
/// (runs without logging take place side by side, runs with logging one at a time)
fn with_level<T>(max: log::LevelFilter, f: impl FnOnce() -> T) -> T {
    static GATE: std::sync::RwLock<()> = std::sync::RwLock::new(());
    if max == log::LevelFilter::Off {
        let _g = GATE.read().unwrap_or_else(|e| e.into_inner());
        LOG_MAX.with(|l| l.set(max));
        return f();
    }
    let _g = GATE.write().unwrap_or_else(|e| e.into_inner());
    struct Back;
    impl Drop for Back { fn drop(&mut self) { LOG_MAX.with(|l| l.set(log::LevelFilter::Off)); log::set_max_level(log::LevelFilter::Off) } }
    let _b = Back;
    logging(max);
    log::set_max_level(max);
    f()
}
/// keeps the messages logged while `f` runs
#[cfg(feature = "std")]
fn logged(f: impl FnOnce()) -> Vec<String> {
    LOG_SINK.with(|s| s.borrow_mut().clear());
    LOG_KEEP.with(|k| k.set(true));
    f();
    LOG_KEEP.with(|k| k.set(false));
    LOG_SINK.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

pub fn p33(s: &mut Src, c: &mut Ctx) -> R {
    use log::LevelFilter as L;
    let plan = Plan { setup: |s, u| { let n = u.buf.cap(); u.buf = Buf::Borrowed(s.bytes_n(n), None) }, ..FULL };
    let h = with_level(L::Off, || history(s, c, &plan))?;
    let n = h.setup.buf.cap();
    let extra = 1 + s.usize(300);
    let (level, other) = *s.pick(&[(L::Error, "logging of errors only"), (L::Warn, "logging of warnings"), (L::Info, "logging of infos"), (L::Debug, "logging of debug messages")]);
    let variants: Vec<(&str, Buf, L)> = vec![
        ("an owned buffer", Buf::owned(Some(n)), L::Off),
        ("other initial contents", Buf::Borrowed(s.bytes_n(n), None), L::Off),
        ("a larger buffer limited to the same size", Buf::Borrowed(s.bytes_n(n + extra), Some(n)), L::Off),
        ("an exact size request", Buf::Borrowed(vec![0; n], Some(n)), L::Off),
        ("trace logging", h.setup.buf.clone(), L::Trace),
        (other, h.setup.buf.clone(), level),
    ];
    for (what, buf, log) in variants {
        let mut u = h.setup.clone();
        u.buf = buf;
        let (st, cs) = u.state();
        LOG_N.with(|n| n.set(0));
        let seen = with_level(log, || {
            let stub = build(mock_session(u.bits, st.clone(), cs.clone(), &u.buf));
            stub.map(|mut stub| replay(&mut *stub, &st, &cs, &h.script))
        });
        if log == L::Trace && LOG_N.with(|n| n.get()) > 0 { c.label("trace messages were formatted") }
        diff("differs", what, &h.script, &h.seen, &seen?)?;
    }
    let out: Vec<u8> = h.seen.iter().flat_map(|x| x.out.iter().copied()).collect();
    if out.contains(&b'$') { c.nontrivial(mix(hash_bytes(&out), n as u64)) }
    // size requests beyond the supplied buffer are refused, smaller ones limit exactly
    let (st, cs) = h.setup.state();
    let over = match s.below(3) { 0 => n + 1, 1 => n + extra, _ => usize::MAX - s.usize(3) };
    check!(mock_session(h.setup.bits, st, cs, &Buf::Borrowed(vec![0; n], Some(over))).is_err(), "oversize", "a packet size of {} was accepted for a buffer of {}", over, n);
    let lim = 6 + s.usize(200);
    for (len, ok) in [(lim, true), (lim + 1, false)] {
        let mut u = h.setup.clone();
        u.cfg.set(F::Guard, true);
        u.buf = Buf::Borrowed(vec![0x55; lim + extra], Some(lim));
        let (st, cs) = u.state();
        let mut stub = build(mock_session(u.bits, st, cs.clone(), &u.buf))?;
        for b in frame(&vec![b'y'; len - 4]) { if stub.kind() == Kind::Idle { stub.feed(b) } }
        match stub.kind() {
            Kind::Idle => check!(ok && cs.borrow().out == b"+$#00", "limit", "a packet of {} bytes was accepted with a packet size of {} (buffer {}): {}", len, lim, lim + extra, show(&cs.borrow().out)),
            k => check!(!ok && matches!(&k, Kind::Dead(e) if e.overflow()), "limit", "a packet of {} bytes with a packet size of {} (buffer {}): {:?}", len, lim, lim + extra, k),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P41

/// the packets that are complete in what the client sends (a packet starts at a `$` outside packets)
#[cfg(feature = "std")]
#[derive(Default)]
struct Framer { cur: Vec<u8>, left: Option<u8> }
#[cfg(feature = "std")]
impl Framer {
    fn push(&mut self, b: u8) -> Option<Vec<u8>> {
        if self.cur.is_empty() && b != b'$' { return None }
        self.cur.push(b);
        match &mut self.left {
            None if b == b'#' && self.cur.len() > 1 => self.left = Some(2),
            None => {}
            Some(n) => { *n -= 1; if *n == 0 { self.left = None; return Some(std::mem::take(&mut self.cur)) } }
        }
        None
    }
}

/// The trace of packets: with logging at trace level, every packet that crosses the wire shows up
/// once, complete (run-length encoding undone) and in order.
#[cfg(feature = "std")]
pub fn p41(s: &mut Src, c: &mut Ctx) -> R {
    use log::LevelFilter as L;
    logging(L::Off);
    let plan = Plan { bg: 2, fams: &[(Fam::Kill, 1), (Fam::Detach, 1), (Fam::NoAck, 1), (Fam::Resume, 6), (Fam::MemR, 5), (Fam::Monitor, 4), (Fam::Xfer, 4), (Fam::Feat, 2), (Fam::MemW, 3), (Fam::HostIo, 3), (Fam::Unknown, 3)],
        tweak: |s, c| { let b = s.chance(2, 3); c.set(F::Rle, b) }, ..FULL };
    let mut h = history(s, c, &plan)?;
    // sometimes the session ends with a damaged packet, one that makes the buffer grow, or a nack
    if s.chance(1, 3) && matches!(h.seen.last().map(|x| x.kind.clone()), Some(Kind::Idle)) {
        let body = { let n = if s.bool() { 12 } else { h.setup.buf.cap() + 20 }; s.bytes(n.min(400)) };
        let mut f = frame(&body.iter().map(|b| if *b == b'#' { b'%' } else { *b }).collect::<Vec<_>>());
        let n = f.len();
        match s.below(4) { 3 => {} 0 => f[n - 1] = if f[n - 1] == b'0' { b'1' } else { b'0' }, 1 => f[n - 2] = b'g', _ => f = b"-".to_vec() }
        h.script.push(Step::Bytes(f));
    }
    let max = match s.below(6) { 0 => *s.pick(&[L::Off, L::Error, L::Warn, L::Info, L::Debug]), _ => L::Trace };
    let (st, cs) = h.setup.state();
    let mut stub = build(mock_session(h.setup.bits, st.clone(), cs.clone(), &h.setup.buf))?;
    let mut fr = Framer::default();
    let (mut ins, mut outs, mut encoded) = (0u64, 0u64, false);
    let lossy = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    for step in &h.script {
        let mut parts: Vec<Step> = match step { Step::Bytes(b) => b.iter().map(|x| Step::Bytes(vec![*x])).collect(), x => vec![x.clone()] };
        for part in parts.drain(..) {
            let alive = matches!(stub.kind(), Kind::Idle | Kind::Running);
            let mut want = vec![];
            if let Step::Bytes(b) = &part {
                if !alive { break }
                if let Some(p) = fr.push(b[0]) { want.push(format!("<-- {}", lossy(&p))); ins += 1 }
            }
            let a = cs.borrow().out.len();
            logging(max);
            let got = logged(|| do_step(&mut *stub, &part));
            logging(L::Off);
            let out = cs.borrow().out[a..].to_vec();
            let dead = matches!(stub.kind(), Kind::Dead(_));
            // (a packet that does not fit a fixed buffer is never complete)
            if let Kind::Dead(e) = stub.kind() { if e.overflow() { break } }
            for t in tokenize2(&out, dead).map_err(|e| Fail { sig: "wire".into(), msg: e })? {
                if let Tok::Pkt { raw, end } = t {
                    let on = h.setup.cfg.on(F::Rle);
                    let mut body = if on { rle_expand(&raw).map_err(|e| Fail { sig: "wire".into(), msg: e })? } else { raw.clone() };
                    if body.len() != raw.len() { encoded = true }
                    body.push(b'#');
                    body.extend_from_slice(&out[end - 2..end]);
                    want.push(format!("--> ${}", lossy(&body)));
                    outs += 1;
                }
            }
            if max != L::Trace { want.clear() }
            let got: Vec<String> = got.into_iter().filter(|x| x.starts_with("--> $") || x.starts_with("<-- $")).collect();
            if got != want {
                let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                let sig = match (got.get(k), want.get(k)) { (None, _) => "missing", (_, None) => "extra", (Some(g), _) if g.starts_with("<--") => "incoming", _ => "outgoing" };
                return fail(sig, format!("while {} the trace (level {}) shows\n{:?}\ninstead of\n{:?}", match &part { Step::Bytes(_) => format!("receiving {}", match step { Step::Bytes(b) => show(b), _ => String::new() }), x => format!("{:?}", x) }, max, got, want));
            }
        }
    }
    if ins > 0 && outs > 0 { c.nontrivial(hash_bytes(&cs.borrow().out)) }
    if encoded { c.label("a run-length encoded packet") }
    if max != L::Trace { c.label("a level without packet traces") }
    if matches!(stub.kind(), Kind::Dead(_)) { c.label("a session that died") }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P35

/// a connection that can also read, recording how it is used
#[derive(Default)]
pub struct XState { pub input: Vec<u8>, pub at: usize, pub trace: Vec<String> }
pub struct XConn { pub base: MockConn, pub x: std::rc::Rc<RefCell<XState>> }
impl Connection for XConn {
    type Error = CErr;
    fn write(&mut self, b: u8) -> Result<(), CErr> { self.x.borrow_mut().trace.push(format!("w{}", b)); self.base.write(b) }
    fn write_all(&mut self, b: &[u8]) -> Result<(), CErr> {
        self.x.borrow_mut().trace.push(format!("W{:?}", b));
        for x in b { self.base.write(*x)? }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), CErr> { self.x.borrow_mut().trace.push("f".into()); self.base.flush() }
    fn on_session_start(&mut self) -> Result<(), CErr> { self.x.borrow_mut().trace.push("s".into()); self.base.on_session_start() }
}
impl ConnectionExt for XConn {
    fn read(&mut self) -> Result<u8, CErr> {
        let mut x = self.x.borrow_mut();
        x.trace.push("r".into());
        let i = x.at;
        x.at += 1;
        x.input.get(i).copied().ok_or(CErr(77))
    }
    fn peek(&mut self) -> Result<Option<u8>, CErr> {
        let mut x = self.x.borrow_mut();
        x.trace.push("p".into());
        if x.at > x.input.len() { return Err(CErr(78)) }
        Ok(x.input.get(x.at).copied())
    }
}

/// keeps a leaked object alive as long as the session, then frees it
struct Leak<X: ?Sized>(*mut X);
impl<X: ?Sized> Drop for Leak<X> { fn drop(&mut self) { unsafe { drop(Box::from_raw(self.0)) } } }
/// the session is dropped before what it borrows
struct Guarded { s: Option<Box<dyn Stub>>, _keep: Vec<Box<dyn std::any::Any>> }
impl Drop for Guarded { fn drop(&mut self) { self.s = None } }
impl Stub for Guarded {
    fn kind(&self) -> Kind { self.s.as_ref().unwrap().kind() }
    fn feed(&mut self, b: u8) { self.s.as_mut().unwrap().feed(b) }
    fn stop(&mut self, r: &StopR, m: bool) { self.s.as_mut().unwrap().stop(r, m) }
    fn interrupt(&mut self, r: Option<(&StopR, bool)>) { self.s.as_mut().unwrap().interrupt(r) }
    fn to_idle(&mut self) { self.s.as_mut().unwrap().to_idle() }
}

/// combinations of a target and a connection that are dispatched dynamically
const COMBOS: &[(&str, &str)] = &[
    ("Box<dyn Target>", "direct connection"), ("&mut dyn Target", "direct connection"),
    ("direct target", "Box<dyn Connection>"), ("direct target", "&mut dyn Connection"), ("direct target", "Box<dyn ConnectionExt>"), ("direct target", "&mut dyn ConnectionExt"),
    ("Box<dyn Target>", "Box<dyn ConnectionExt>"),
];

fn dyn_session(which: usize, st: St, cs: Cs, buf: &Buf) -> Result<Box<dyn Stub>, String> {
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    let xs: std::rc::Rc<RefCell<XState>> = Default::default();
    let conn = XConn { base: MockConn(cs), x: xs };
    type DT = dyn Target<Arch = TA<u64>, Error = TErr>;
    type DC = dyn Connection<Error = CErr>;
    type DX = dyn ConnectionExt<Error = CErr>;
    macro_rules! leak { ($v:expr, $t:ty) => {{
        let raw = Box::into_raw(Box::new($v));
        keep.push(Box::new(Leak(raw)));
        let r: &'static mut $t = unsafe { &mut *raw };
        r
    }} }
    let t = MockTarget::<u64>::new(st);
    let s: Box<dyn Stub> = match which {
        #[cfg(feature = "std")]
        0 => { let b: Box<DT> = Box::new(t); Box::new(Sess::start(b, conn, buf)?) }
        1 => { let r: &'static mut DT = leak!(t, DT); Box::new(Sess::start(r, conn, buf)?) }
        #[cfg(feature = "std")]
        2 => { let b: Box<DC> = Box::new(conn); Box::new(Sess::start(t, b, buf)?) }
        3 => { let r: &'static mut DC = leak!(conn, DC); Box::new(Sess::start(t, r, buf)?) }
        #[cfg(feature = "std")]
        4 => { let b: Box<DX> = Box::new(conn); Box::new(Sess::start(t, b, buf)?) }
        5 => { let r: &'static mut DX = leak!(conn, DX); Box::new(Sess::start(t, r, buf)?) }
        #[cfg(feature = "std")]
        _ => { let (a, b): (Box<DT>, Box<DX>) = (Box::new(t), Box::new(conn)); Box::new(Sess::start(a, b, buf)?) }
        #[cfg(not(feature = "std"))]
        _ => unreachable!(),
    };
    Ok(Box::new(Guarded { s: Some(s), _keep: keep }))
}

pub fn p35(s: &mut Src, c: &mut Ctx) -> R {
    let plan = Plan { fams: &[(Fam::Kill, 1), (Fam::Detach, 1), (Fam::NoAck, 2), (Fam::Resume, 5), (Fam::Feat, 5), (Fam::Unknown, 2), (Fam::Xfer, 3), (Fam::Lldb, 2), (Fam::Xml, 2), (Fam::MemW, 2)], bg: 2, tweak: |s, c| if s.bool() { // features that configuration methods decide
        for f in [F::Guard, F::NoAck, F::XUp, F::RStub, F::Rle, F::UseXml, F::UseLldb] { let b = s.bool(); c.set(f, b) } if s.bool() { c.set(F::Sw, true); c.set(F::Bp, true) } }, setup: |_, u| { u.bits = 64 }, ops: 12, ..FULL };
    let h = history(s, c, &plan)?;
    let all = s.thorough;
    let pick = s.usize(COMBOS.len());
    for (i, (tk, ck)) in COMBOS.iter().enumerate() {
        if !STD && i % 2 == 0 { continue } // boxed ones need an allocator
        if !all && i != pick && i != (pick + 2) % COMBOS.len() { continue }
        let (st, cs) = h.setup.state();
        let mut stub = build(dyn_session(i, st.clone(), cs.clone(), &h.setup.buf))?;
        let seen = replay(&mut *stub, &st, &cs, &h.script);
        let what = format!("{} and {}", tk, ck);
        diff("dyn", &what, &h.script, &h.seen, &seen)?;
        let (a, b) = (cs.borrow().starts, cs.borrow().flushed);
        if h.seen[0].kind == Kind::Idle { check!(a == 1, "starts", "{}: {} session starts", what, a); }
        let (st2, cs2) = h.setup.state();
        let mut plain = build(mock_session(h.setup.bits, st2.clone(), cs2.clone(), &h.setup.buf))?;
        replay(&mut *plain, &st2, &cs2, &h.script);
        check!(cs2.borrow().flushed == b && cs2.borrow().flushes == cs.borrow().flushes, "flush", "{}: {} flushes, directly {}", what, cs.borrow().flushes, cs2.borrow().flushes);
    }
    // the connection methods themselves
    let ops: Vec<(u64, Vec<u8>)> = (0..s.usize(12)).map(|_| (s.below(6), s.bytes(6))).collect();
    let input = s.bytes(8);
    let fail_at = s.chance(1, 3).then(|| (s.below(8), 9u32, s.bool()));
    let run = |which: usize| -> (Vec<String>, Vec<String>, Vec<u8>) {
        let cs: Cs = Default::default();
        cs.borrow_mut().fail_at = fail_at;
        let x: std::rc::Rc<RefCell<XState>> = Default::default();
        x.borrow_mut().input = input.clone();
        let conn = XConn { base: MockConn(cs.clone()), x: x.clone() };
        fn go<C: ConnectionExt<Error = CErr>>(mut c: C, ops: &[(u64, Vec<u8>)]) -> Vec<String> {
            ops.iter().map(|(k, b)| match k {
                0 => format!("{:?}", c.write(b.first().copied().unwrap_or(7))),
                1 => format!("{:?}", c.write_all(b)),
                2 => format!("{:?}", c.flush()),
                3 => format!("{:?}", c.on_session_start()),
                4 => format!("{:?}", c.read()),
                _ => format!("{:?}", c.peek()),
            }).collect()
        }
        fn go2<C: Connection<Error = CErr>>(mut c: C, ops: &[(u64, Vec<u8>)]) -> Vec<String> {
            ops.iter().filter(|x| x.0 < 4).map(|(k, b)| match k {
                0 => format!("{:?}", c.write(b.first().copied().unwrap_or(7))),
                1 => format!("{:?}", c.write_all(b)),
                2 => format!("{:?}", c.flush()),
                _ => format!("{:?}", c.on_session_start()),
            }).collect()
        }
        type DC = dyn Connection<Error = CErr>;
        type DX = dyn ConnectionExt<Error = CErr>;
        let r = match which {
            0 => go(conn, &ops),
            #[cfg(feature = "std")]
            1 => { let b: Box<DX> = Box::new(conn); go(b, &ops) }
            2 => { let raw = Box::into_raw(Box::new(conn)); let r: &'static mut DX = unsafe { &mut *raw }; let o = go(r, &ops); unsafe { drop(Box::from_raw(raw)) } o }
            3 => go2(conn, &ops),
            #[cfg(feature = "std")]
            4 => { let b: Box<DC> = Box::new(conn); go2(b, &ops) }
            _ => { let raw = Box::into_raw(Box::new(conn)); let r: &'static mut DC = unsafe { &mut *raw }; let o = go2(r, &ops); unsafe { drop(Box::from_raw(raw)) } o }
        };
        let t = x.borrow().trace.clone();
        let o = cs.borrow().out.clone();
        (r, t, o)
    };
    for (a, b, what) in [(0, 1, "Box<dyn ConnectionExt>"), (0, 2, "&mut dyn ConnectionExt"), (3, 4, "Box<dyn Connection>"), (3, 5, "&mut dyn Connection")] {
        if !STD && what.starts_with("Box") { continue }
        let (x, y) = (run(a), run(b));
        check!(x == y, "delegation", "{}: operations {:?} give\n{:?}\ninstead of\n{:?}", what, ops, y, x);
    }
    // the target's answers about itself
    let (st, _) = h.setup.state();
    let describe = |t: &mut dyn FnMut() -> Vec<bool>| t();
    let mut direct = MockTarget::<u32>::new(st.clone());
    let a = describe(&mut || flags(&mut direct));
    #[allow(unused_mut)]
    let mut boxed: Box<dyn Target<Arch = TA<u32>, Error = TErr>> = Box::new(MockTarget::<u32>::new(st.clone()));
    #[cfg(feature = "std")]
    let b = describe(&mut || flags(&mut boxed));
    #[cfg(not(feature = "std"))]
    let b = { let mut r: &mut dyn Target<Arch = TA<u32>, Error = TErr> = Box::leak(boxed); let b = flags(&mut r); drop(unsafe { Box::from_raw(r) }); b };
    let mut inner = MockTarget::<u32>::new(st);
    let mut r: &mut dyn Target<Arch = TA<u32>, Error = TErr> = &mut inner;
    let d = describe(&mut || flags(&mut r));
    check!(a == b && a == d, "flags", "support flags {:?}\nboxed {:?}\nreference {:?}", a, b, d);
    c.nontrivial(hash_bytes(format!("{:?}{:?}", a, ops).as_bytes()));
    Ok(())
}
fn flags<T: Target<Error = TErr>>(t: &mut T) -> Vec<bool> {
    let mut v = vec![t.guard_rail_implicit_sw_breakpoints(), t.use_no_ack_mode(), t.use_x_upcase_packet(), t.use_resume_stub(), t.use_rle(), t.use_target_description_xml(), t.use_lldb_register_info()];
    v.push(t.support_breakpoints().is_some());
    v.push(t.support_monitor_cmd().is_some());
    v.push(t.support_extended_mode().is_some());
    v.push(t.support_section_offsets().is_some());
    v.push(t.support_target_description_xml_override().is_some());
    v.push(t.support_lldb_register_info_override().is_some());
    v.push(t.support_memory_map().is_some());
    v.push(t.support_catch_syscalls().is_some());
    v.push(t.support_host_io().is_some());
    v.push(t.support_exec_file().is_some());
    v.push(t.support_auxv().is_some());
    v.push(t.support_libraries_svr4().is_some());
    v.push(t.support_tracepoints().is_some());
    v.push(matches!(t.base_ops(), gdbstub::target::ext::base::BaseOps::MultiThread(_)));
    v
}

// ---------------------------------------------------------------------------------------- P32

#[derive(Debug, Clone)]
enum Item { Byte(u8), Stop(StopR, bool), Int(Option<(StopR, bool)>) }
#[derive(Default)]
struct Drive { items: std::collections::VecDeque<Item>, end: Option<Item>, code: u32, target_end: bool, wrong: Option<String> }
thread_local! { static DRIVE: RefCell<Drive> = RefCell::new(Drive::default()); }

struct BConn(MockConn);
impl Connection for BConn {
    type Error = CErr;
    fn write(&mut self, b: u8) -> Result<(), CErr> { self.0.write(b) }
    fn flush(&mut self) -> Result<(), CErr> { self.0.flush() }
    fn on_session_start(&mut self) -> Result<(), CErr> { self.0.on_session_start() }
}
impl ConnectionExt for BConn {
    fn read(&mut self) -> Result<u8, CErr> {
        DRIVE.with(|d| {
            let mut d = d.borrow_mut();
            match d.items.pop_front() {
                Some(Item::Byte(b)) => Ok(b),
                None => Err(CErr(d.code)),
                Some(x) => { d.wrong = Some(format!("a byte was read where the script continues with {:?}", x)); Err(CErr(0)) }
            }
        })
    }
    fn peek(&mut self) -> Result<Option<u8>, CErr> { Ok(None) }
}
struct EL<T, S>(PhantomData<(T, S)>);
trait FromStop: Sized { fn conv(r: &StopR) -> Self; }
impl<U: UInt> FromStop for MultiThreadStopReason<U> { fn conv(r: &StopR) -> Self { r.multi() } }
impl<U: UInt> FromStop for SingleThreadStopReason<U> { fn conv(r: &StopR) -> Self { r.single() } }
impl<T, S> BlockingEventLoop for EL<T, S>
where T: Target<Error = TErr>, S: FromStop + gdbstub::stub::IntoStopReason<T> {
    type Target = T;
    type Connection = BConn;
    type StopReason = S;
    fn wait_for_stop_reason(_: &mut T, _: &mut BConn) -> Result<Event<S>, WaitForStopReasonError<TErr, CErr>> {
        DRIVE.with(|d| {
            let mut d = d.borrow_mut();
            match d.items.pop_front() {
                Some(Item::Byte(b)) => Ok(Event::IncomingData(b)),
                Some(Item::Stop(r, _)) => Ok(Event::TargetStopped(S::conv(&r))),
                None => Err(if d.target_end { WaitForStopReasonError::Target(TErr(d.code)) } else { WaitForStopReasonError::Connection(CErr(d.code)) }),
                Some(x) => { d.wrong = Some(format!("waiting for the target where the script continues with {:?}", x)); Err(WaitForStopReasonError::Target(TErr(0))) }
            }
        })
    }
    fn on_interrupt(_: &mut T) -> Result<Option<S>, TErr> {
        DRIVE.with(|d| {
            let mut d = d.borrow_mut();
            match d.items.pop_front() {
                Some(Item::Int(r)) => Ok(r.map(|(r, _)| S::conv(&r))),
                None => Err(TErr(d.code)),
                Some(x) => { d.wrong = Some(format!("interrupt callback where the script continues with {:?}", x)); Err(TErr(0)) }
            }
        })
    }
}
fn blocking<U: UFull>(multi: bool, st: St, cs: Cs, buf: &Buf) -> Result<Result<Result<DR, ErrInfo>, String>, String> {
    let mut t = MockTarget::<U>::new(st);
    let (raw, b) = Sess::<MockTarget<U>, BConn>::builder(BConn(MockConn(cs)), buf);
    let r = match b.build() {
        Err(e) => Err(format!("{:?}", e)),
        Ok(stub) => Ok(catch(|| if multi { stub.run_blocking::<EL<MockTarget<U>, MultiThreadStopReason<U>>>(&mut t) } else { stub.run_blocking::<EL<MockTarget<U>, SingleThreadStopReason<U>>>(&mut t) })
            .map(|r| r.map(disc_reason).map_err(ErrInfo::of))),
    };
    unsafe { drop(Box::from_raw(raw)) }
    r
}

pub fn p32(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &Plan { fams: &[(Fam::Kill, 1), (Fam::Detach, 1), (Fam::NoAck, 1), (Fam::Resume, 30), (Fam::Bad, 1)], ops: 18, ctrlc: 14, tweak: |s, c| if s.chance(3, 4) { c.set(F::Resume, true) }, ..FULL })?;
    // flatten; one kind of stop reason per run
    let mut items = vec![];
    let mut multi = None;
    let mut ok = |m: bool| *multi.get_or_insert(m) == m;
    'o: for (i, x) in h.script.iter().enumerate() {
        match x {
            Step::Bytes(b) => items.extend(b.iter().map(|b| Item::Byte(*b))),
            Step::Stop(r, m) => if ok(*m) { items.push(Item::Stop(r.clone(), *m)) } else { break 'o },
            Step::Interrupt(None) => items.push(Item::Int(None)),
            Step::Interrupt(Some((r, m))) => if ok(*m) { items.push(Item::Int(Some((r.clone(), *m)))) } else { break 'o },
            Step::ToIdle => break 'o,
        }
        if !h.seen[i + 1].kind.alive() { break }
    }
    // or cut somewhere
    if s.chance(1, 3) && !items.is_empty() { let n = s.usize(items.len() + 1); items.truncate(n) }
    let multi = multi.unwrap_or_else(|| s.bool());
    let (code, target_end) = (1 + s.below(1000) as u32, s.bool());
    // by hand
    let (st, cs) = h.setup.state();
    let mut stub = build(mock_session(h.setup.bits, st.clone(), cs.clone(), &h.setup.buf))?;
    let mut used = 0;
    for x in &items {
        if !stub.kind().alive() { break }
        used += 1;
        match x {
            Item::Byte(b) => stub.feed(*b),
            Item::Stop(r, m) => stub.stop(r, *m),
            Item::Int(r) => stub.interrupt(r.as_ref().map(|(r, m)| (r, *m))),
        }
    }
    items.truncate(used);
    let (want_out, want_calls) = (cs.borrow().out.clone(), st.borrow().log.clone());
    let want_flush = (cs.borrow().flushed, cs.borrow().starts);
    let end = stub.kind();
    drop(stub);
    // the blocking loop
    let (st, cs) = h.setup.state();
    DRIVE.with(|d| *d.borrow_mut() = Drive { items: items.iter().cloned().collect(), end: None, code, target_end, wrong: None });
    let r = match h.setup.bits {
        16 => blocking::<u16>(multi, st.clone(), cs.clone(), &h.setup.buf),
        32 => blocking::<u32>(multi, st.clone(), cs.clone(), &h.setup.buf),
        _ => blocking::<u64>(multi, st.clone(), cs.clone(), &h.setup.buf),
    }.map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    let (wrong, left) = DRIVE.with(|d| { let mut d = d.borrow_mut(); let l = d.items.len(); let _ = d.end.take(); (d.wrong.take(), l) });
    check!(wrong.is_none(), "order", "{}", wrong.unwrap());
    let got = match r { Ok(x) => x, Err(p) => return fail("panic", format!("the blocking loop panicked: {}", p)) };
    let conn_err = |e: &ErrInfo| e.is_conn && !e.is_target && e.conn == Some((code, CK::Read));
    let targ_err = |e: &ErrInfo| e.is_target && !e.is_conn && e.target == Some(code);
    let good = match (&end, &got) {
        (Kind::Disc(a), Ok(b)) => a == b,
        (Kind::Dead(a), Err(b)) => a == b,
        (Kind::Idle, Err(e)) => conn_err(e),
        (Kind::Running, Err(e)) => if target_end { targ_err(e) } else { conn_err(e) },
        (Kind::CtrlC, Err(e)) => targ_err(e),
        _ => false,
    };
    check!(good, "result", "by hand the session ends as {:?}, the blocking loop returns {:?} (end code {}, target error {})", end, got, code, target_end);
    check!(left == 0, "leftover", "{} script items were not consumed", left);
    check!(cs.borrow().out == want_out, "output", "output {}\nby hand {}", show(&cs.borrow().out), show(&want_out));
    check!(st.borrow().log == want_calls, "calls", "calls {:?}\nby hand {:?}", st.borrow().log, want_calls);
    check!((cs.borrow().flushed, cs.borrow().starts) == want_flush, "flush", "flushed/starts {:?}, by hand {:?}", (cs.borrow().flushed, cs.borrow().starts), want_flush);
    if items.iter().any(|x| !matches!(x, Item::Byte(_))) { c.nontrivial(hash_bytes(format!("{:?}", items).as_bytes())); }
    c.label(format!("ends {}", end.name()));
    c.label(if multi { "multi-threaded stop reasons" } else { "single-threaded stop reasons" });
    Ok(())
}
