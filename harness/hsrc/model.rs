//! The client-side model of a session: what the stub must do for every request, judged against
//! what the recording target and connection observed.

use crate::engine::*;
use crate::mock::*;
use crate::rsp::*;
use crate::sess::*;

/// set of properties a fault speaks about
pub type M = u64;
pub const fn p(n: u32) -> M { 1 << n }
pub const ALL: M = u64::MAX;

#[derive(Debug, Clone)]
pub struct Fault { pub mask: M, pub sig: String, pub msg: String }
pub type JR = Result<(), Fault>;
pub fn fault<T>(mask: M, sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fault> {
    Err(Fault { mask, sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! want {
    ($m:expr, $c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return $crate::model::fault($m, $sig, format!($($a)*)); }
    };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MK { Idle, Running, CtrlC { idle: bool }, Disc(DR), Gone }

#[derive(Debug, Clone, PartialEq)]
pub enum Cur { None, /* the listing was redefined under way: only a new listing is judged */ Stale, New(usize, u128), Action(usize, u128, u64), Source(usize, u128, u64) }

pub struct Model {
    pub cfg: Cfg,
    pub bits: u32,
    pub acks: bool,
    pub mp: bool,
    pub mem_tid: usize,
    /// which properties explain the current selection
    pub mem_why: M,
    /// the client or a stop has chosen that thread
    pub mem_set: bool,
    /// who chose the thread the legacy resume requests act on
    pub res_why: M,
    pub res_tid: Option<usize>,
    /// whether the thread to resume was ever chosen
    pub res_set: bool,
    pub deferred: Option<(StopR, bool)>,
    pub kind: MK,
    pub buf: Buf,
    /// length of the packet buffer (owned buffers grow)
    pub full: usize,
    pub reg_len: usize,
    pub xml: Option<&'static str>,
    pub lldb: Option<u64>,
    pub cur: Cur,
    /// items enumerated since the last first-packet, and whether the store changed since
    pub items: Option<Vec<TItem>>,
    pub st: St,
}
impl Model {
    pub fn t(&self) -> T { if self.cfg.multi() { Some(self.mem_tid) } else { None } }
    pub fn max(&self) -> u128 { (1u128 << self.bits) - 1 }
    pub fn pid(&self) -> usize { if self.cfg.ext(F::CurPid) { self.st.borrow().pid } else { 1 } }
    pub fn threads(&self) -> Vec<usize> { if self.cfg.multi() { self.st.borrow().b.threads.clone() } else { vec![1] } }
    pub fn fits(&self, body: usize) -> bool { !self.buf.fixed() || body + 4 <= self.full }
}

pub struct Obs<'a> {
    pub calls: &'a [Call],
    pub pkts: Vec<Vec<u8>>,
    pub kind: Kind,
    pub before: MK,
}

pub type Judge = Box<dyn FnOnce(&mut Model, &Obs) -> JR>;
pub struct Cmd {
    pub body: Vec<u8>,
    pub label: &'static str,
    pub mask: M,
    pub judge: Judge,
}
impl Cmd {
    pub fn new(label: &'static str, mask: M, body: Vec<u8>, judge: impl FnOnce(&mut Model, &Obs) -> JR + 'static) -> Cmd {
        Cmd { body, label, mask, judge: Box::new(judge) }
    }
}

// ---------------------------------------------------------------------------------------------
// generic judgements

pub fn kind_matches(k: &Kind, m: &MK) -> bool {
    match (k, m) {
        (Kind::Idle, MK::Idle) | (Kind::Running, MK::Running) | (Kind::CtrlC, MK::CtrlC { .. }) => true,
        (Kind::Disc(a), MK::Disc(b)) => a == b,
        _ => false,
    }
}
pub fn same_state(m: &Model, o: &Obs, mask: M) -> JR {
    want!(mask | p(14), kind_matches(&o.kind, &o.before), "state", "the session went from {:?} to {:?}", o.before, o.kind);
    let _ = m;
    Ok(())
}
pub fn no_calls(o: &Obs, mask: M) -> JR {
    want!(mask, o.calls.is_empty(), "extra-call", "the target was called although it must not be: {:?}", o.calls);
    Ok(())
}
/// the single reply
pub fn one<'a>(o: &'a Obs, mask: M) -> Result<&'a [u8], Fault> {
    if let Kind::Dead(e) = &o.kind { return fault(mask, "session-error", format!("the session ended with an error: {}", e.text)) }
    if let Kind::Panicked(e) = &o.kind { return fault(mask | p(2), "panic", e.clone()) }
    want!(mask | p(3), o.pkts.len() == 1, "reply-count", "expected exactly one reply, got {}: {:?}", o.pkts.len(), o.pkts.iter().map(|p| show(p)).collect::<Vec<_>>());
    Ok(&o.pkts[0])
}
/// the calls must be exactly these; an error stops the sequence
pub fn calls_are(o: &Obs, mask: M, want: &[K]) -> Result<Option<E>, Fault> {
    for (i, c) in o.calls.iter().enumerate() {
        let Some(w) = want.get(i) else { return fault(mask, "extra-call", format!("unexpected call {:?} (calls {:?})", c.k, o.calls)) };
        want!(mask, c.k == *w, "wrong-call", "target call {:?}, expected {:?}", c.k, w);
        if let Some(e) = c.err() {
            want!(mask | p(27), i + 1 == o.calls.len(), "call-after-error", "further calls after the error {:?}: {:?}", e, &o.calls[i + 1..]);
            return Ok(Some(e.clone()));
        }
    }
    if let Kind::Panicked(e) = &o.kind { return fault(mask | p(2), "panic", e.clone()) }
    want!(mask, o.calls.len() == want.len(), "missing-call", "target calls {:?}, expected {:?}; reply {:?} state {:?}", o.calls, want, o.pkts.iter().map(|p| show(p)).collect::<Vec<_>>(), o.kind);
    Ok(None)
}
/// what must follow an error of the target
pub fn after_err(m: &mut Model, o: &Obs, mask: M, e: &E) -> JR {
    let mask = mask | p(27);
    match e {
        E::Fatal(x) => {
            match &o.kind {
                Kind::Dead(d) => {
                    want!(mask, d.is_target && !d.is_conn && d.target == Some(*x), "fatal-class", "fatal target error {} surfaced as {:?}", x, d);
                    for pk in &o.pkts {
                        want!(mask, pk.first() == Some(&b'O') && pk != b"OK", "fatal-reply", "a fatal error produced the reply {}", show(pk));
                    }
                    m.kind = MK::Gone;
                    Ok(())
                }
                Kind::Panicked(t) => fault(mask | p(2), "panic", t.clone()),
                k => fault(mask, "fatal-swallowed", format!("the target failed fatally ({}) but the session continued as {:?} with replies {:?}", x, k, o.pkts.iter().map(|p| show(p)).collect::<Vec<_>>())),
            }
        }
        E::H(n) => {
            same_state(m, o, mask)?;
            let r = one(o, mask | p(20))?;
            let ok = r.strip_prefix(b"F-1,").and_then(|x| parse_hex(x).ok()) == Some(*n as u128);
            want!(mask | p(20), ok, "hostio-errno", "host i/o error {} reported as {}", n, show(r));
            Ok(())
        }
        e => {
            let code = e.code().unwrap();
            same_state(m, o, mask)?;
            let r = one(o, mask)?;
            let ok = r.len() == 3 && r[0] == b'E' && parse_hex(&r[1..]).ok() == Some(code as u128);
            want!(mask, ok, "errno", "target error {:?} (code {:02x}) reported as {}", e, code, show(r));
            Ok(())
        }
    }
}

pub enum Rep {
    Ok,
    Lit(Vec<u8>),
    F(Box<dyn FnOnce(&mut Model, &Obs, &[u8]) -> JR>),
    Resume,
}
pub fn lit(s: &str) -> Rep { Rep::Lit(s.as_bytes().to_vec()) }
pub fn rep(f: impl FnOnce(&mut Model, &Obs, &[u8]) -> JR + 'static) -> Rep { Rep::F(Box::new(f)) }

pub fn judge_simple(m: &mut Model, o: &Obs, mask: M, want: &[K], r: Rep) -> JR {
    if let Some(e) = calls_are(o, mask, want)? {
        return after_err(m, o, mask, &e);
    }
    match r {
        Rep::Resume => judge_resumed(m, o, mask),
        r => {
            let x = one(o, mask)?;
            match r {
                Rep::Ok => { want!(mask, x == b"OK", "not-ok", "reply {} instead of OK", show(x)); }
                Rep::Lit(l) => { want!(mask, x == &l[..], "reply", "reply {} instead of {}", show(x), show(&l)); }
                Rep::F(f) => { let x = x.to_vec(); f(m, o, &x)?; }
                Rep::Resume => unreachable!(),
            }
            same_state(m, o, mask)
        }
    }
}
pub fn simple(mask: M, want: Vec<K>, r: Rep) -> impl FnOnce(&mut Model, &Obs) -> JR {
    move |m, o| judge_simple(m, o, mask, &want, r)
}
/// a successful resume request
pub fn judge_resumed(m: &mut Model, o: &Obs, mask: M) -> JR {
    if let Kind::Dead(e) = &o.kind {
        // an immediately reported deferred stop may itself be of a kind that is not enabled
        if m.deferred.as_ref().map_or(true, |(r, _)| stop_ok(&m.cfg, r)) {
            return fault(mask | p(14), "session-error", format!("resume request ended the session: {}", e.text));
        }
    }
    if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
    if o.before == MK::Idle {
        if let Some((r, multi)) = m.deferred.take() {
            return judge_stop(m, o, &r, multi, p(14) | p(13));
        }
    }
    want!(mask | p(14) | p(3), o.pkts.is_empty(), "resume-reply", "a resume request was answered at once with {:?}", o.pkts.iter().map(|p| show(p)).collect::<Vec<_>>());
    want!(mask | p(14), matches!(o.kind, Kind::Running), "resume-state", "after an accepted resume request the session is {:?}", o.kind);
    m.kind = MK::Running;
    Ok(())
}
/// feature not supported or unknown request
pub fn unsup(mask: M) -> impl FnOnce(&mut Model, &Obs) -> JR {
    let mask = mask | p(18) | p(17);
    move |m, o| {
        no_calls(o, mask)?;
        let r = one(o, mask)?;
        want!(mask, r.is_empty(), "unsupported-reply", "an unsupported request was answered with {}", show(r));
        same_state(m, o, mask)
    }
}
/// a request that must not be accepted; `allowed` calls may still happen
pub fn reject(mask: M, allowed: fn(&K) -> bool) -> impl FnOnce(&mut Model, &Obs) -> JR {
    move |m, o| {
        if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
        for c in o.calls {
            want!(mask, allowed(&c.k), "rejected-call", "a request that must be refused reached the target: {:?}", c);
            if let Some(e) = c.err() { return after_err(m, o, mask, &e.clone()) }
        }
        match &o.kind {
            Kind::Dead(e) => {
                want!(mask | p(27), !e.is_target && !e.is_conn, "reject-class", "a client mistake is reported as a target or connection error: {:?}", e);
                m.kind = MK::Gone;
                Ok(())
            }
            _ => {
                same_state(m, o, mask)?;
                let r = one(o, mask)?;
                want!(mask, r.is_empty() || r[0] == b'E' || r.starts_with(b"F-1"), "reject-reply", "a request that must be refused was answered with {}", show(r));
                Ok(())
            }
        }
    }
}
pub fn none(_: &K) -> bool { false }

// ---------------------------------------------------------------------------------------------
// numbers and thread ids in replies

pub fn num(mask: M, b: &[u8]) -> Result<u128, Fault> {
    parse_hex(b).map_err(|e| Fault { mask: mask | p(31), sig: "number".into(), msg: e })
}
pub fn parse_tid(mask: M, b: &[u8]) -> Result<(Option<u128>, u128), Fault> {
    match b.strip_prefix(b"p") {
        Some(x) => {
            let i = x.iter().position(|c| *c == b'.');
            match i {
                Some(i) => Ok((Some(num(mask, &x[..i])?), num(mask, &x[i + 1..])?)),
                None => fault(mask, "thread-id", format!("incomplete thread id {}", show(b))),
            }
        }
        None => Ok((None, num(mask, b)?)),
    }
}
pub fn tid_is(m: &Model, mask: M, b: &[u8], tid: usize) -> JR {
    let (pd, t) = parse_tid(mask | p(16), b)?;
    want!(mask | p(16) | p(31), t == tid as u128, "thread-id", "thread id {} instead of {:x}", show(b), tid);
    let want_pid = m.mp.then(|| m.pid() as u128);
    want!(p(16) | p(17) | mask, pd == want_pid, "process-id", "thread id {}: process id {:x?} expected {:x?}", show(b), pd, want_pid);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// stop replies

pub fn stop_ok(c: &Cfg, r: &StopR) -> bool {
    match r {
        StopR::SwBreak(_) => c.sw(),
        StopR::HwBreak(_) => c.hw(),
        StopR::Watch(..) => c.watch(),
        StopR::Replay(..) => c.rcont() || c.rstep(),
        StopR::Sysc(..) => c.on(F::Catch),
        _ => true,
    }
}

/// `o` holds what was observed while the stop was reported
pub fn judge_stop(m: &mut Model, o: &Obs, r: &StopR, multi: bool, mask: M) -> JR {
    let mask = mask | p(13);
    if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
    if !stop_ok(&m.cfg, r) {
        match &o.kind {
            Kind::Dead(e) => {
                want!(mask | p(27), !e.is_target && !e.is_conn, "stop-class", "unsupported stop reason surfaced as {:?}", e);
                want!(mask, o.pkts.is_empty(), "stop-unsupported", "an unsupported stop reason was sent: {:?}", o.pkts);
                m.kind = MK::Gone;
                return Ok(());
            }
            k => return fault(mask, "stop-unsupported", format!("stop reason {:?} is not enabled but was accepted: state {:?} replies {:?}", r, k, o.pkts.iter().map(|p| show(p)).collect::<Vec<_>>())),
        }
    }
    let x = one(o, mask)?.to_vec();
    let tid = r.tid(multi);
    if let Some(t) = tid {
        m.mem_tid = t;
        m.mem_set = true;
        m.mem_why = p(13);
        m.res_why = p(13);
        { m.res_tid = Some(t); m.res_set = true }
    }
    let two = |b: &[u8]| -> Result<u8, Fault> {
        want!(mask, b.len() >= 2 && b[0].is_ascii_hexdigit() && b[1].is_ascii_hexdigit(), "stop-code", "bad two digit code in {}", show(&x));
        Ok(num(mask, &b[..2])? as u8)
    };
    let exitlike = match r { StopR::Exited(c) => Some((b'W', *c)), StopR::Term(c) => Some((b'X', *c)), _ => None };
    if let Some((l, c)) = exitlike {
        let mask = mask | p(15);
        want!(mask, x.first() == Some(&l), "exit-reply", "exit report {:?} sent as {}", r, show(&x));
        let got = two(&x[1..])?;
        want!(mask, got == c, "exit-code", "exit report {:?} sent as {}", r, show(&x));
        want!(mask, x.len() == 3 || x[3] == b';', "exit-reply", "exit report {:?} sent as {}", r, show(&x));
        let d = if l == b'W' { DR::Exited(c) } else { DR::Terminated(c) };
        want!(mask | p(14), o.kind == Kind::Disc(d), "exit-state", "after {:?} the session is {:?}", r, o.kind);
        m.kind = MK::Disc(d);
        return Ok(());
    }
    let sig = match r { StopR::Sig(s) | StopR::SigT(_, s) => *s, _ => 5 };
    want!(mask, matches!(x.first(), Some(b'S') | Some(b'T')), "stop-reply", "stop {:?} sent as {}", r, show(&x));
    let got = two(&x[1..])?;
    want!(mask, got == sig, "stop-signal", "stop {:?} sent as {}: signal {:02x}, expected {:02x}", r, show(&x), got, sig);
    let rest = &x[3..];
    if x[0] == b'S' { want!(mask, rest.is_empty(), "stop-reply", "trailing data in {}", show(&x)); }
    let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if !rest.is_empty() {
        let mut parts: Vec<&[u8]> = rest.split(|c| *c == b';').collect();
        want!(mask, parts.last() == Some(&&b""[..]), "stop-reply", "unterminated field in {}", show(&x));
        parts.pop();
        for q in parts {
            let Some(i) = q.iter().position(|c| *c == b':') else { return fault(mask, "stop-reply", format!("field without ':' in {}", show(&x))) };
            pairs.push((q[..i].to_vec(), q[i + 1..].to_vec()));
        }
    }
    let mut seen_thread = false;
    let mut reason: Option<(Vec<u8>, Vec<u8>)> = None;
    for (k, v) in pairs {
        if k == b"thread" {
            want!(mask, !seen_thread, "stop-reply", "two threads in {}", show(&x));
            seen_thread = true;
            match tid {
                Some(t) => tid_is(m, mask, &v, t)?,
                None => return fault(mask, "stop-thread", format!("stop {:?} names a thread nobody reported: {}", r, show(&x))),
            }
        } else {
            want!(mask, reason.is_none(), "stop-reply", "two reasons in {}", show(&x));
            reason = Some((k, v));
        }
    }
    want!(mask, seen_thread == tid.is_some(), "stop-thread", "stop {:?} (multi {}) sent without its thread: {}", r, multi, show(&x));
    let bad = || fault(mask, "stop-reason", format!("stop {:?} sent as {}", r, show(&x)));
    let (k, v) = match reason { None => (vec![], vec![]), Some(x) => x };
    match r {
        StopR::DoneStep | StopR::Sig(_) | StopR::SigT(..) => if !k.is_empty() { return bad() },
        StopR::SwBreak(_) => if k != b"swbreak" || !v.is_empty() { return bad() },
        StopR::HwBreak(_) => if k != b"hwbreak" || !v.is_empty() { return bad() },
        StopR::Watch(_, kind, a) => {
            let name: &[u8] = match kind { BpK::W => b"watch", BpK::R => b"rwatch", _ => b"awatch" };
            if k != name { return bad() }
            let n = num(mask, &v)?;
            want!(mask | p(31), n == *a, "watch-addr", "watchpoint address {:x} sent as {}", a, show(&x));
        }
        StopR::Replay(_, b) => if k != b"replaylog" || v != if *b { &b"begin"[..] } else { b"end" } { return bad() },
        StopR::Sysc(_, n, e) => {
            if k != if *e { &b"syscall_entry"[..] } else { b"syscall_return" } { return bad() }
            let g = num(mask, &v)?;
            want!(mask | p(31) | p(23), g == *n, "syscall-number", "system call {:x} sent as {}", n, show(&x));
        }
        StopR::Exited(_) | StopR::Term(_) => {}
    }
    want!(mask | p(14), o.kind == Kind::Idle, "stop-state", "after a stop report the session is {:?}", o.kind);
    m.kind = MK::Idle;
    m.deferred = None;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// request families

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Fam {
    MemR, MemW, Regs, Reg, Bp, Resume, Reverse, Thread, Select, Feat, Unknown, Xml, Xfer, HostIo, Ext, Settings, Monitor, Catch, TDef, TBuf, TEnum, TQuery, Lldb, Offs, ThrExtra, Status, Kill, Detach, NoAck, Bad,
}
pub const FAMS: &[Fam] = &[Fam::MemR, Fam::MemW, Fam::Regs, Fam::Reg, Fam::Bp, Fam::Resume, Fam::Reverse, Fam::Thread, Fam::Select, Fam::Feat, Fam::Unknown, Fam::Xml, Fam::Xfer, Fam::HostIo, Fam::Ext, Fam::Settings, Fam::Monitor, Fam::Catch, Fam::TDef, Fam::TBuf, Fam::TEnum, Fam::TQuery, Fam::Lldb, Fam::Offs, Fam::ThrExtra, Fam::Status, Fam::Kill, Fam::Detach, Fam::NoAck, Fam::Bad];

pub fn gen_cmd(fam: Fam, s: &mut Src, m: &Model) -> Cmd {
    match fam {
        Fam::MemR => mem_read(s, m),
        Fam::MemW => mem_write(s, m),
        Fam::Regs => regs(s, m),
        Fam::Reg => reg(s, m),
        Fam::Bp => bp(s, m),
        Fam::Resume => if m.cfg.multi() { resume_multi(s, m) } else { resume_single(s, m) },
        Fam::Reverse => reverse(s, m),
        Fam::Thread => thread(s, m),
        Fam::Select => select(s, m),
        Fam::Feat => feat(s, m),
        Fam::Unknown => unknown(s, m),
        Fam::Xml => xml(s, m),
        Fam::Xfer => xfer(s, m),
        Fam::HostIo => hostio(s, m),
        Fam::Ext => ext(s, m),
        Fam::Settings => settings(s, m),
        Fam::Monitor => monitor(s, m),
        Fam::Catch => catch_sys(s, m),
        Fam::TDef => tdef(s, m),
        Fam::TBuf => tbuf(s, m),
        Fam::TEnum => tenum(s, m),
        Fam::TQuery => tquery(s, m),
        Fam::Lldb => lldb(s, m),
        Fam::Offs => offs(s, m),
        Fam::ThrExtra => thr_extra(s, m),
        Fam::Status => status(s, m),
        Fam::Kill => kill(s, m),
        Fam::Detach => detach(s, m),
        Fam::NoAck => noack(s, m),
        Fam::Bad => bad(s, m),
    }
}

fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
fn s8(s: &str) -> &[u8] { s.as_bytes() }

/// an address: (value, encoding, fits)
fn addr(s: &mut Src, m: &Model) -> (u128, Vec<u8>, bool) {
    let (v, fits) = if s.chance(1, 40) {
        // does not fit the address type
        let extra = 1 + s.num(8) as u128;
        ((extra << m.bits) | s.num(m.bits.min(64)) as u128, false)
    } else { (s.num(m.bits) as u128, true) };
    let e = enumx(s, v);
    (v, e, fits)
}
/// an address near the accessible range
fn maddr(s: &mut Src, m: &Model) -> (u128, Vec<u8>, bool) {
    let (lo, hi) = { let st = m.st.borrow(); (st.b.lo, st.b.hi) };
    if s.chance(1, 5) { return addr(s, m) }
    let span = (hi - lo) as u64;
    let v = match s.below(4) {
        0 => lo + s.len(span.min(100) as usize) as u128,
        1 => hi.saturating_sub(s.below(40) as u128).max(lo),
        2 => lo,
        _ => lo + s.range(0, span) as u128,
    };
    let e = enumx(s, v);
    (v, e, true)
}

// ------------------------------------------------------------------ memory

fn why(m: &Model) -> M { if m.cfg.multi() { p(16) | m.mem_why } else { 0 } }

fn mem_read(s: &mut Src, m: &Model) -> Cmd {
    let (a, ae, fits) = maddr(s, m);
    let len: u128 = match s.below(10) {
        0 => s.below(3) as u128,
        1..=3 => s.below(64) as u128,
        4 => { let c = m.full as u64; c.saturating_sub(12) as u128 + s.below(40) as u128 }
        5 => (m.full * (2 + s.usize(3))) as u128 + s.below(20) as u128,
        6 => s.below(s.lim(5000, 100_000) as u64) as u128,
        7 => { let st = m.st.borrow(); if a <= st.b.hi { ((st.b.hi - a + 1) + s.below(3) as u128).min(u64::MAX as u128) } else { 7 } }
        8 => s.num(64) as u128,
        _ => 1 + s.below(300) as u128,
    };
    let le = enumx(s, len);
    let body = cat(&[b"m", &ae, b",", &le]);
    let mask = p(6) | p(31);
    if !fits { return Cmd::new("m-toobig", mask, body, reject(mask, none)) }
    Cmd::new("m", mask, body, move |m, o| {
        if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
        let t = m.t();
        let mut data: Vec<u8> = vec![];
        let mut at = a;
        let mut short = false;
        for (i, c) in o.calls.iter().enumerate() {
            let last = i + 1 == o.calls.len();
            let K::ReadMem(ct, ca, cn) = &c.k else { return fault(mask, "extra-call", format!("unexpected call {:?}", c)) };
            want!(p(6) | why(m), *ct == t, "read-thread", "memory of thread {:?} read, selected is {:?}", ct, t);
            want!(mask, *ca == at, "read-addr", "target asked for {:x}, expected {:x}", ca, at);
            want!(mask, *ca + *cn as u128 <= a + len, "read-range", "target asked for {:x}+{:x}, beyond the requested {:x}+{:x}", ca, cn, a, len);
            want!(mask, *cn > 0 || len == 0, "read-empty", "target asked for zero bytes");
            match &c.out {
                Out::Bytes(b) => {
                    data.extend_from_slice(b);
                    at += b.len() as u128;
                    if b.len() < *cn {
                        want!(mask, last, "read-after-short", "the stub kept reading after the target provided only {} of {} bytes", b.len(), cn);
                        short = true;
                    }
                }
                Out::Err(e) => {
                    want!(mask | p(27), last, "call-after-error", "the stub kept reading after the error {:?}", e);
                    if data.is_empty() || matches!(e, E::Fatal(_)) { return after_err(m, o, mask, &e.clone()) }
                    short = true;
                }
                x => return fault(ALL, "harness", format!("{:?}", x)),
            }
        }
        let end = (a + len).min(m.max() + 1);
        let done = short || at >= end;
        if a + len > m.max() + 1 && data.is_empty() && matches!(o.kind, Kind::Dead(_)) {
            // a range that does not exist may be refused as a whole
            return reject(mask, |k| matches!(k, K::ReadMem(..)))(m, o);
        }
        want!(mask, done || len == 0, "read-incomplete", "only {} of {} bytes were requested from the target", at - a, len);
        let x = one(o, mask)?;
        want!(mask, x == hex(&data).as_bytes(), "read-data", "reply {} but the target provided {}", show(x), hex(&data[..data.len().min(200)]));
        same_state(m, o, mask)
    })
}

fn mem_write(s: &mut Src, m: &Model) -> Cmd {
    let bin = s.bool();
    let (a, ae, fits) = maddr(s, m);
    let n = match s.below(4) { 0 => s.usize(4), 1 => s.usize(s.lim(300, 6000)), _ => s.usize(s.lim(40, 700)) };
    let data = s.bytes_n(n);
    let le = enumx(s, n as u128);
    let mask = p(7) | p(31);
    let (tag, enc): (&[u8], Vec<u8>) = if bin { (b"X", escape(s, &data)) } else { (b"M", ehex(s, &data)) };
    let body = cat(&[tag, &ae, b",", &le, b":", &enc]);
    if bin && !m.cfg.on(F::XUp) { return Cmd::new("X-unsupported", mask, body, unsup(p(7))) }
    if !fits { return Cmd::new("M-toobig", mask, body, reject(mask, none)) }
    Cmd::new(if bin { "X" } else { "M" }, mask, body, move |m, o| {
        let mask = mask | why(m);
        let want = K::WriteMem(m.t(), a, data);
        judge_simple(m, o, mask, &[want], Rep::Ok)
    })
}

// ------------------------------------------------------------------ registers

fn regs(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(8);
    if s.bool() {
        return Cmd::new("g", mask, b"g".to_vec(), move |m, o| {
            let mask = mask | why(m);
            let k = K::ReadRegs(m.t());
            judge_simple(m, o, mask, &[k], rep(move |_, o, x| {
                let Out::Regs(v) = &o.calls[0].out else { return fault(ALL, "harness", "regs") };
                let want: String = v.iter().map(|b| match b { Some(b) => format!("{:02x}", b), None => "xx".into() }).collect();
                want!(mask, x == want.as_bytes(), "regs", "register block {} sent as {}", want, show(x));
                Ok(())
            }))
        });
    }
    let good = s.chance(5, 6);
    let n = if good { m.reg_len } else { let d = s.len(m.reg_len + 8); if d == m.reg_len { d + 1 } else { d } };
    let mut data = s.bytes_n(n);
    let mut h = ehex(s, &data);
    if good && s.chance(1, 5) {
        // a client writes back what it could not read as `xx`
        for i in 0..n {
            if s.chance(1, 6) { data[i] = 0; h[2 * i..2 * i + 2].copy_from_slice(b"xx") }
        }
    }
    let body = cat(&[b"G", &h]);
    if !good { return Cmd::new("G-badlen", mask, body, reject(mask, none)) }
    Cmd::new("G", mask, body, move |m, o| {
        let mask = mask | why(m);
        let k = K::WriteRegs(m.t(), data.iter().map(|b| Some(*b)).collect());
        judge_simple(m, o, mask, &[k], Rep::Ok)
    })
}

fn reg(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(9) | p(31);
    let id: usize = match s.below(8) {
        0..=4 => s.usize(50),
        5 => if s.bool() { 61 + s.usize(11) } else { *s.pick(&[0x100usize, 0x1234_5678, usize::MAX, 61, 64, 65]) },
        _ => s.num(64) as usize,
    };
    let ide = enumx(s, id as u128);
    let info = crate::tarch::reg_info(id);
    let write = s.bool();
    let data = { let n = match (info, s.below(4)) { (Some(Some(z)), 1..=3) => z, _ => s.usize(40) }; s.bytes_n(n) };
    let h = ehex(s, &data);
    let body = if write { cat(&[b"P", &ide, b"=", &h]) } else { cat(&[b"p", &ide]) };
    if !m.cfg.on(F::Sra) { return Cmd::new("p-unsupported", mask, body, unsup(p(9))) }
    if s.chance(1, 60) {
        // register number too large for the machine
        let body = cat(&[if write { b"P1" } else { b"p1" }, b"0000000000000000", if write { b"=00" } else { b"" }]);
        return Cmd::new("p-toobig", mask, body, reject(mask, none));
    }
    let Some(size) = info else {
        return Cmd::new("p-unknown", mask, body, move |m, o| {
            no_calls(o, mask)?;
            let r = one(o, mask)?;
            want!(mask, r.is_empty(), "unknown-register", "an unknown register was answered with {}", show(r));
            same_state(m, o, mask)
        });
    };
    if write {
        return Cmd::new("P", mask, body, move |m, o| {
            let mask = mask | why(m);
            let k = K::WriteReg(m.t(), id, data);
            judge_simple(m, o, mask, &[k], Rep::Ok)
        });
    }
    Cmd::new("p", mask, body, move |m, o| {
        let mask = mask | why(m);
        if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
        if o.calls.is_empty() {
            // the register does not fit a tiny packet buffer
            want!(mask, m.full < size.unwrap_or(1) + 4, "missing-call", "register {} was not read; state {:?} reply {:?}", id, o.kind, o.pkts);
            return reject(mask, none)(m, o);
        }
        let K::ReadReg(_, _, room) = o.calls[0].k else { return fault(mask, "wrong-call", format!("{:?}", o.calls)) };
        match size {
            Some(z) => want!(mask, room == z, "register-buffer", "register {} has {} bytes, the target got a buffer of {}", id, z, room),
            None => want!(mask, room > 0, "register-buffer", "the target got an empty buffer"),
        }
        let k = K::ReadReg(m.t(), id, room);
        if let Some(e) = calls_are(o, mask, &[k])? { return after_err(m, o, mask, &e) }
        let Out::Bytes(b) = &o.calls[0].out else { return fault(ALL, "harness", "reg") };
        match (size, b.len()) {
            (Some(z), 0) => {
                let x = one(o, mask)?;
                want!(mask, x == "xx".repeat(z).as_bytes(), "unavailable-register", "unavailable register of {} bytes sent as {}", z, show(x));
                same_state(m, o, mask)
            }
            (Some(z), n) if n != z => reject(mask, |k| matches!(k, K::ReadReg(..)))(m, o),
            (None, 0) => reject(mask, |k| matches!(k, K::ReadReg(..)))(m, o),
            _ => {
                let x = one(o, mask)?;
                want!(mask, x == hex(b).as_bytes(), "register-data", "register {} is {} but was sent as {}", id, hex(b), show(x));
                same_state(m, o, mask)
            }
        }
    })
}

// ------------------------------------------------------------------ breakpoints

fn bp(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(10) | p(31);
    let add = s.bool();
    let ty = match s.below(12) { 0 => 5 + s.below(8), n => n % 5 };
    let (a, ae, fits) = addr(s, m);
    let arg: u128 = match s.below(6) {
        0 => s.num(64) as u128,
        1 => (s.num(16) as u128) << 60,
        2 => s.num(m.bits) as u128,
        _ => s.below(12) as u128,
    };
    let arge = enumx(s, arg);
    let mut body = cat(&[if add { b"Z" } else { b"z" }, format!("{:x}", ty).as_bytes(), b",", &ae, b",", &arge]);
    if add && s.chance(1, 12) { body.extend_from_slice(b";X3,220027") }
    let kind = match ty { 0 => BpK::Sw, 1 => BpK::Hw, 2 => BpK::W, 3 => BpK::R, _ => BpK::A };
    let sup = match ty { 0 => m.cfg.sw(), 1 => m.cfg.hw(), 2..=4 => m.cfg.watch(), _ => false };
    if !sup {
        // an unsupported kind is told before or after its arguments are looked at
        return Cmd::new("z-unsupported", mask, body, move |m, o| {
            if !fits && matches!(o.kind, Kind::Dead(_)) { return reject(mask, none)(m, o) }
            unsup(p(10))(m, o)
        });
    }
    let arg_ok = if ty < 2 { crate::tarch::bk_ok(arg) } else { arg <= m.max() };
    if !fits || !arg_ok { return Cmd::new("z-toobig", mask, body, reject(mask, none)) }
    Cmd::new(if add { "Z" } else { "z" }, mask, body, move |m, o| {
        let k = K::Bp { add, kind, addr: a, arg };
        if let Some(e) = calls_are(o, mask, &[k])? { return after_err(m, o, mask, &e) }
        let x = one(o, mask)?;
        if o.calls[0].out == Out::Bool(true) {
            want!(mask, x == b"OK", "bp-reply", "accepted breakpoint answered with {}", show(x));
        } else {
            want!(mask, x.len() == 3 && x[0] == b'E' && parse_hex(&x[1..]).is_ok(), "bp-refused", "refused breakpoint answered with {}", show(x));
        }
        same_state(m, o, mask)
    })
}

// ------------------------------------------------------------------ resuming

fn resume_stub(mask: M) -> impl FnOnce(&mut Model, &Obs) -> JR {
    let mask = mask | p(18);
    move |m, o| {
        no_calls(o, mask)?;
        if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
        want!(mask, o.pkts.len() == 2, "resume-stub", "expected a message and a stop reply, got {:?}", o.pkts.iter().map(|p| show(p)).collect::<Vec<_>>());
        let msg = o.pkts[0].strip_prefix(b"O").and_then(|h| unhex(h).ok());
        want!(mask, msg.map_or(false, |t| !t.is_empty()), "resume-stub", "no message text: {}", show(&o.pkts[0]));
        let r = &o.pkts[1];
        want!(mask, r.len() >= 3 && (r[0] == b'S' || r[0] == b'T') && &r[1..3] == b"05", "resume-stub", "not a stop reply: {}", show(r));
        same_state(m, o, mask)
    }
}
fn no_resume(m: &Model, body: &[u8], mask: M) -> Judge {
    if m.cfg.on(F::RStub) && matches!(body[0], b'c' | b'C' | b's' | b'S') { Box::new(resume_stub(mask)) } else { Box::new(unsup(mask)) }
}
/// a signal with its encoding
fn signal(s: &mut Src) -> (u8, Vec<u8>) {
    let v = match s.below(3) { 0 => 5, 1 => s.below(32) as u8, _ => s.raw() as u8 };
    (v, format!("{:02x}", v).into_bytes())
}
/// a thread-id as a client writes it
fn tid_enc(s: &mut Src, m: &Model, t: &str) -> Vec<u8> {
    let mp = if m.mp { s.chance(7, 8) } else { s.chance(1, 16) };
    if mp {
        let pd = m.pid();
        let pe = enumx(s, pd as u128);
        cat(&[b"p", &pe, b".", s8(t)])
    } else { s8(t).to_vec() }
}
/// all threads (of the process, or of all processes); in a vCont action also thread 0, which is
/// documented to mean the same there
fn tid_all(s: &mut Src, m: &Model, vcont: bool) -> Vec<u8> {
    let mp = if m.mp { s.chance(7, 8) } else { s.chance(1, 16) };
    let k = s.below(if vcont { 6 } else { 5 });
    if !mp { return if k == 5 { b"0".to_vec() } else { b"-1".to_vec() } }
    if k == 2 { return b"p-1.-1".to_vec() }
    let pe = enumx(s, m.pid() as u128);
    cat(&[b"p", &pe, match k { 3 => b"", 5 => b".0", _ => b".-1" }])
}
/// any thread
fn tid_any(s: &mut Src, m: &Model) -> Vec<u8> {
    let mp = if m.mp { s.chance(7, 8) } else { s.chance(1, 16) };
    if !mp { return b"0".to_vec() }
    if s.bool() { return b"p0.0".to_vec() }
    let pe = enumx(s, m.pid() as u128);
    cat(&[b"p", &pe, b".0"])
}
fn tid_num(s: &mut Src, v: usize) -> String {
    String::from_utf8(enumx(s, v as u128)).unwrap()
}
fn pick_tid(s: &mut Src, m: &Model) -> usize {
    let ts = m.threads();
    if !ts.is_empty() && s.chance(3, 4) { ts[s.usize(ts.len())] } else { gen_tid(s) }
}
fn is_resume_prep(k: &K) -> bool { matches!(k, K::MClear | K::MCont(..) | K::MStep(..) | K::MRange(..)) }

fn vcont_query(m: &Model) -> Cmd {
    let mask = p(17);
    let body = b"vCont?".to_vec();
    if !m.cfg.resume() {
        return Cmd { judge: no_resume(m, b"v", mask), body, label: "vCont?-unsupported", mask };
    }
    Cmd::new("vCont?", mask, body, move |m, o| {
        judge_simple(m, o, mask, &[], rep(move |m, _, x| {
            let Some(r) = x.strip_prefix(b"vCont") else { return fault(mask, "vcont-list", format!("reply {}", show(x))) };
            let mut got: Vec<&[u8]> = r.split(|c| *c == b';').skip(1).collect();
            let n = got.len();
            got.sort();
            got.dedup();
            want!(mask, n == got.len() && (r.is_empty() || r[0] == b';'), "vcont-list", "malformed list {}", show(x));
            let mut want: Vec<&[u8]> = vec![b"C", b"c"];
            if m.cfg.step() { want.push(b"S"); want.push(b"s") }
            if m.cfg.range() { want.push(b"r") }
            want.sort();
            want!(mask, got == want, "vcont-list", "actions {} but the target supports {:?}", show(x), want.iter().map(|w| show(w)).collect::<Vec<_>>());
            Ok(())
        }))
    })
}

/// a resume request a client falls back to when vCont is not offered
fn legacy_resume(s: &mut Src, m: &Model, mask: M) -> Cmd {
    let mut body = match s.below(6) { 0 => b"c".to_vec(), 1 => b"s".to_vec(), 2 | 3 => b"C".to_vec(), _ => b"S".to_vec() };
    if body[0] < b'a' {
        let (_, e) = signal(s);
        body.extend(e);
        if s.chance(1, 4) { let a = s.num(m.bits); body.push(b';'); let e = enumx(s, a as u128); body.extend(e) }
    } else if s.chance(1, 4) { let a = s.num(m.bits); let e = enumx(s, a as u128); body.extend(e) }
    Cmd { judge: no_resume(m, &body, mask), body, label: "resume-legacy-unsupported", mask: mask | p(18) }
}

fn resume_single(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(11);
    if s.chance(1, 10) { return vcont_query(m) }
    if !m.cfg.resume() && s.chance(1, 2) { return legacy_resume(s, m, mask) }
    let mut body;
    let want: Result<K, ()>;
    let kind = s.below(12);
    let step = s.bool();
    let has_step = m.cfg.step();
    if kind < 3 {
        body = if step { b"s".to_vec() } else { b"c".to_vec() };
        if s.chance(1, 6) { let a = s.num(m.bits); let e = enumx(s, a as u128); body.extend(e) }
        want = if step { if has_step { Ok(K::SStep(None)) } else { Err(()) } } else { Ok(K::SResume(None)) };
    } else {
        let mut w;
        let act: Vec<u8> = match kind {
            3 | 4 => { w = Ok(K::SResume(None)); b"c".to_vec() }
            5 | 6 => { let (v, e) = signal(s); w = Ok(K::SResume(Some(v))); cat(&[b"C", &e]) }
            7 => { w = if has_step { Ok(K::SStep(None)) } else { Err(()) }; b"s".to_vec() }
            8 => { let (v, e) = signal(s); w = if has_step { Ok(K::SStep(Some(v))) } else { Err(()) }; cat(&[b"S", &e]) }
            9 | 10 => {
                let (a, ae, f1) = addr(s, m);
                let (b, be, f2) = addr(s, m);
                w = if m.cfg.range() && f1 && f2 { Ok(K::SRange(a, b)) } else { Err(()) };
                cat(&[b"r", &ae, b",", &be])
            }
            _ => {
                w = Err(());
                if s.bool() { b"t".to_vec() } else { s.pick(&[&b"q"[..], b"C", b"Czz", b"C100", b"r1", b"", b"cc", b"C1ff"]).to_vec() }
            }
        };
        body = cat(&[b"vCont;", &act]);
        match s.below(5) {
            0 | 1 => { let t = if s.bool() { "1".to_string() } else { tid_num(s, 1) }; let e = tid_enc(s, m, &t); body.push(b':'); body.extend(e) }
            2 => { let e = tid_all(s, m, true); body.push(b':'); body.extend(e) }
            _ => {}
        }
        match s.below(8) {
            0 | 1 => body.extend_from_slice(b";c"),
            2 => { body.extend_from_slice(b";c:"); let e = tid_all(s, m, true); body.extend(e) }
            3 if s.chance(1, 6) => { body.extend_from_slice(if s.bool() { b";c;c" } else { b";s:1" }); w = Err(()) }
            _ => {}
        }
        want = w;
    }
    if !m.cfg.resume() { return Cmd { judge: no_resume(m, &body, mask), body, label: "resume-unsupported", mask: mask | p(18) } }
    match want {
        Ok(k) => Cmd::new("resume-1", mask, body, simple(mask, vec![k], Rep::Resume)),
        Err(()) => Cmd::new("resume-1-reject", mask, body, reject(mask, none)),
    }
}

fn resume_multi(s: &mut Src, m: &Model) -> Cmd {
    let mut mask = p(12) | m.mem_why & p(13);
    if s.chance(1, 10) { return vcont_query(m) }
    if !m.cfg.resume() && s.chance(1, 2) { return legacy_resume(s, m, mask) }
    let has_step = m.cfg.step();
    let mut want = vec![K::MClear];
    let mut ok = true;
    let mut body;
    if s.below(4) == 0 {
        // before the client (or a stop) chose a thread the legacy requests have no defined meaning
        if !m.res_set { return hc(s, m) }
        mask |= m.res_why;
        let step = s.bool();
        body = if step { b"s".to_vec() } else { b"c".to_vec() };
        if s.chance(1, 6) { let a = s.num(m.bits); let e = enumx(s, a as u128); body.extend(e) }
        match (step, m.res_tid) {
            (false, None) => {}
            (false, Some(t)) => want.push(K::MCont(t, None)),
            (true, Some(t)) if has_step => want.push(K::MStep(t, None)),
            _ => ok = false,
        }
    } else {
        body = b"vCont".to_vec();
        let n = match s.below(6) { 0 => 3 + s.below(s.lim(6, 60) as u64), 1 | 2 => 1, _ => 2 };
        for i in 0..n {
            // last action is often the default
            let all = i + 1 == n && s.chance(2, 3);
            let t = pick_tid(s, m);
            let bad = s.chance(1, 60);
            let mut k = s.below(8);
            if all && !s.chance(1, 30) { k = 0 }
            body.push(b';');
            match k {
                0 | 1 => { body.push(b'c'); if !all { want.push(K::MCont(t, None)) } }
                2 => { let (v, e) = signal(s); body.push(b'C'); body.extend(e);
                       if all { body.truncate(body.len() - 3); body.push(b'c') } else { want.push(K::MCont(t, Some(v))) } }
                3 | 4 => { body.push(b's'); if has_step && !all { want.push(K::MStep(t, None)) } else { ok = false } }
                5 => { let (v, e) = signal(s); body.push(b'S'); body.extend(e); if has_step && !all { want.push(K::MStep(t, Some(v))) } else { ok = false } }
                6 => {
                    let (a, ae, f1) = addr(s, m);
                    let (b, be, f2) = addr(s, m);
                    body.push(b'r'); body.extend(ae); body.push(b','); body.extend(be);
                    if m.cfg.range() && f1 && f2 && !all { want.push(K::MRange(t, a, b)) } else { ok = false }
                }
                _ => if bad { body.extend_from_slice(s.pick(&[&b"t"[..], b"q", b"Czz", b"S1ff", b""])); ok = false }
                     else { body.push(b'c'); if !all { want.push(K::MCont(t, None)) } },
            }
            if all {
                match s.below(4) {
                    0 | 1 => { let e = tid_all(s, m, true); body.push(b':'); body.extend(e) }
                    _ => {}
                }
            } else {
                body.push(b':');
                let tt = tid_num(s, t);
                let e = tid_enc(s, m, &tt);
                body.extend(e);
            }
            if !ok { break }
        }
    }
    if !m.cfg.resume() { return Cmd { judge: no_resume(m, &body, mask), body, label: "resume-unsupported", mask: mask | p(18) } }
    if !ok { return Cmd::new("resume-n-reject", mask, body, reject(mask, is_resume_prep)) }
    want.push(K::MResume);
    Cmd::new("resume-n", mask, body, simple(mask, want, Rep::Resume))
}

fn reverse(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(34);
    if s.bool() {
        if !m.cfg.rcont() { return Cmd::new("bc-unsupported", mask, b"bc".to_vec(), unsup(mask)) }
        return Cmd::new("bc", mask, b"bc".to_vec(), simple(mask, vec![K::RCont], Rep::Resume));
    }
    if !m.cfg.rstep() { return Cmd::new("bs-unsupported", mask, b"bs".to_vec(), unsup(mask)) }
    if m.cfg.multi() && !m.res_set { return hc(s, m) }
    Cmd::new("bs", mask, b"bs".to_vec(), move |m, o| {
        if !m.cfg.multi() {
            // the only thread there is
            if m.res_set && m.res_tid.is_none() && !matches!(o.kind, Kind::Running | Kind::Idle) { return reject(mask, none)(m, o) }
            return judge_simple(m, o, mask, &[K::RStep(None)], Rep::Resume);
        }
        match m.res_tid {
            Some(t) => judge_simple(m, o, mask | m.res_why, &[K::RStep(Some(t))], Rep::Resume),
            None => reject(mask, none)(m, o),
        }
    })
}

// ------------------------------------------------------------------ threads

fn thread(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(16);
    match s.below(4) {
        0 => Cmd::new("qfThreadInfo", mask, b"qfThreadInfo".to_vec(), move |m, o| {
            judge_simple(m, o, mask, &[], rep(move |m, _, x| {
                want!(mask, x.first() == Some(&b'm'), "thread-list", "thread list {}", show(x));
                let ts = m.threads();
                let got: Vec<&[u8]> = if x.len() == 1 { vec![] } else { x[1..].split(|c| *c == b',').collect() };
                want!(mask, got.len() == ts.len(), "thread-list", "{} threads listed, {} active: {}", got.len(), ts.len(), show(x));
                for (g, t) in got.iter().zip(&ts) { tid_is(m, mask, g, *t)? }
                Ok(())
            }))
        }),
        1 => Cmd::new("qsThreadInfo", mask, b"qsThreadInfo".to_vec(), move |m, o| judge_simple(m, o, mask, &[], lit("l"))),
        _ => {
            let t = pick_tid(s, m);
            if s.chance(1, 60) {
                let e = if s.bool() { tid_all(s, m, false) } else { tid_any(s, m) };
                return Cmd::new("T-any", mask, cat(&[b"T", &e]), reject(mask, none));
            }
            let te = tid_num(s, t);
            let e = tid_enc(s, m, &te);
            Cmd::new("T", mask, cat(&[b"T", &e]), move |m, o| {
                let multi = m.cfg.multi();
                let want = if multi { vec![K::Alive(t)] } else { vec![] };
                judge_simple(m, o, mask, &want, rep(move |_, o, x| {
                    let alive = if multi { o.calls[0].out == Out::Bool(true) } else { t == 1 };
                    if alive { want!(mask, x == b"OK", "alive", "thread {:x} is alive, reply {}", t, show(x)); }
                    else { want!(mask, x.first() == Some(&b'E'), "dead", "thread {:x} is dead, reply {}", t, show(x)); }
                    Ok(())
                }))
            })
        }
    }
}

fn select(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(16);
    let c = s.bool();
    let which = s.below(12);
    let ch: &[u8] = if c { b"Hc" } else { b"Hg" };
    if which == 0 && !c {
        if s.chance(3, 4) { let e = tid_any(s, m); return sel_any(cat(&[b"Hg", &e]), false) }
        let e = tid_all(s, m, false);
        return Cmd::new("Hg-all", mask, cat(&[b"Hg", &e]), reject(mask, none));
    }
    if which <= 2 {
        if s.bool() { let e = tid_any(s, m); return sel_any(cat(&[ch, &e]), c) }
        if c {
            let e = tid_all(s, m, false);
            return Cmd::new("Hc-all", mask, cat(&[b"Hc", &e]), move |m, o| { judge_simple(m, o, mask, &[], Rep::Ok)?; m.res_tid = None; m.res_set = true; m.res_why = p(16); Ok(()) });
        }
        let e = tid_any(s, m);
        return sel_any(cat(&[ch, &e]), c);
    }
    let t = pick_tid(s, m);
    let te = tid_num(s, t);
    let e = tid_enc(s, m, &te);
    Cmd::new("H", mask, cat(&[ch, &e]), move |m, o| {
        judge_simple(m, o, mask, &[], Rep::Ok)?;
        if c { m.res_tid = Some(t); m.res_set = true; m.res_why = p(16) } else { m.mem_tid = t; m.mem_set = true; m.mem_why = p(16) }
        Ok(())
    })
}
/// choose a thread to resume
fn hc(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(16);
    let t = pick_tid(s, m);
    let all = s.chance(1, 4);
    let e = if all { tid_all(s, m, false) } else { let te = tid_num(s, t); tid_enc(s, m, &te) };
    Cmd::new("Hc", mask, cat(&[b"Hc", &e]), move |m, o| {
        judge_simple(m, o, mask, &[], Rep::Ok)?;
        m.res_tid = if all { None } else { Some(t) };
        m.res_set = true;
        m.res_why = p(16);
        Ok(())
    })
}
fn sel_any(body: Vec<u8>, c: bool) -> Cmd {
    let mask = p(16);
    Cmd::new("H-any", mask, body, move |m, o| {
        no_calls(o, mask)?;
        let x = one(o, mask)?.to_vec();
        match m.threads().first().copied() {
            Some(t) => {
                want!(mask, x == b"OK", "any-thread", "selecting any thread answered with {}", show(&x));
                if c { m.res_tid = Some(t); m.res_set = true; m.res_why = p(16) } else { m.mem_tid = t; m.mem_set = true; m.mem_why = p(16) }
            }
            None => want!(mask, x.first() == Some(&b'E'), "any-thread", "there is no thread to select, reply {}", show(&x)),
        }
        same_state(m, o, mask)
    })
}

fn status(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(16);
    if s.chance(2, 3) {
        return Cmd::new("?", mask, b"?".to_vec(), move |m, o| judge_simple(m, o, mask, &[], rep(move |m, _, x| reasonable(m, mask, x))));
    }
    if !m.cfg.on(F::Ext) { return Cmd::new("qC-unsupported", mask, b"qC".to_vec(), unsup(mask)) }
    if !m.cfg.ext(F::CurPid) {
        // the target can not tell its process: no claim about the reply beyond naming an active thread
        return Cmd::new("qC-nopid", mask, b"qC".to_vec(), move |m, o| {
            no_calls(o, mask)?;
            let x = one(o, mask)?.to_vec();
            want!(mask, x.is_empty() || x[0] == b'E' || x.starts_with(b"QC"), "current-thread", "reply {}", show(&x));
            same_state(m, o, mask)
        });
    }
    Cmd::new("qC", mask, b"qC".to_vec(), move |m, o| judge_simple(m, o, mask, &[], rep(move |m, _, x| {
        let Some(id) = x.strip_prefix(b"QC") else { return fault(mask, "current-thread", format!("reply {}", show(x))) };
        let (pd, t) = parse_tid(mask, id)?;
        let want_pid = m.mp.then(|| m.pid() as u128);
        want!(mask, pd == want_pid, "process-id", "current thread {}: process {:x?}, expected {:x?}", show(id), pd, want_pid);
        let ts = m.threads();
        // the selected thread; an active one when nothing was selected or the selected one is gone
        let ok = t == m.mem_tid as u128 || (m.mem_tid == 1 && ts.first().map_or(t == 1, |f| t == *f as u128)) || (!m.cfg.multi() && t == 1);
        let strict = m.cfg.multi() && m.mem_set && ts.contains(&m.mem_tid);
        want!(mask | m.mem_why, if strict { t == m.mem_tid as u128 } else { ok }, "current-thread", "current thread {} (selected {:x}, active {:x?})", show(id), m.mem_tid, ts);
        Ok(())
    })))
}
/// the reply to `?`
pub fn reasonable(m: &Model, mask: M, x: &[u8]) -> JR {
    match m.threads().first() {
        Some(t) => {
            want!(mask, x.len() > 3 && x[0] == b'T' && num(mask, &x[1..3]).is_ok(), "status", "status {}", show(x));
            let mut th = None;
            for q in x[3..].split(|c| *c == b';') {
                if let Some(v) = q.strip_prefix(b"thread:") { th = Some(v) }
            }
            let Some(v) = th else { return fault(mask, "status", format!("no thread in {}", show(x))) };
            tid_is(m, mask, v, *t)
        }
        None => { want!(mask, matches!(x.first(), Some(b'W') | Some(b'X') | Some(b'N')), "status", "no thread is active but the status is {}", show(x)); Ok(()) }
    }
}

fn thr_extra(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(34);
    let t = pick_tid(s, m);
    let te = tid_num(s, t);
    let e = tid_enc(s, m, &te);
    let body = cat(&[b"qThreadExtraInfo,", &e]);
    if !m.cfg.multi() || !m.cfg.on(F::ThrExtra) { return Cmd::new("qThreadExtraInfo-unsupported", mask, body, unsup(mask)) }
    Cmd::new("qThreadExtraInfo", mask, body, simple(mask, vec![K::ThrExtra(t)], rep(move |_, o, x| {
        let Out::Bytes(b) = &o.calls[0].out else { return fault(ALL, "harness", "extra") };
        want!(mask, x == hex(b).as_bytes(), "thread-extra", "extra info {} sent as {}", hex(b), show(x));
        Ok(())
    })))
}

// ------------------------------------------------------------------ feature negotiation

pub fn feature_set(m: &Model) -> Vec<String> {
    let c = &m.cfg;
    let mut v: Vec<&str> = vec!["vContSupported+", "multiprocess+"];
    let mut add = |b: bool, s: &'static str| if b { v.push(s) };
    add(c.on(F::NoAck), "QStartNoAckMode+");
    add(c.rcont(), "ReverseContinue+");
    add(c.rstep(), "ReverseStep+");
    add(c.ext(F::Aslr), "QDisableRandomization+");
    add(c.ext(F::Env), "QEnvironmentHexEncoded+");
    add(c.ext(F::Env), "QEnvironmentUnset+");
    add(c.ext(F::Env), "QEnvironmentReset+");
    add(c.ext(F::Shell), "QStartupWithShell+");
    add(c.ext(F::Wdir), "QSetWorkingDir+");
    add(c.sw(), "swbreak+");
    add(c.hw() || c.watch(), "hwbreak+");
    add(c.on(F::Trace), "QTBuffer:size+");
    add(c.src(), "TracepointSource+");
    add(c.on(F::Catch), "QCatchSyscalls+");
    add(c.on(F::UseXml) && (m.xml.is_some() || c.on(F::XmlOvr)), "qXfer:features:read+");
    add(c.on(F::MemMap), "qXfer:memory-map:read+");
    add(c.on(F::ExecFile), "qXfer:exec-file:read+");
    add(c.on(F::Auxv), "qXfer:auxv:read+");
    add(c.on(F::Svr4), "qXfer:libraries-svr4:read+");
    v.into_iter().map(|s| s.to_string()).collect()
}

fn feat(s: &mut Src, _m: &Model) -> Cmd {
    let mask = p(17);
    let mut feats: Vec<&str> = vec![];
    let mut mp: Option<bool> = None;
    let n = s.below(s.lim(6, 80) as u64);
    for _ in 0..n {
        let f = *s.pick(&["swbreak+", "hwbreak+", "qRelocInsn+", "fork-events+", "vfork-events-", "xmlRegisters=i386,arm", "no-resumed+", "multiprocesses+", "xmultiprocess+", "multiprocess?", "exec-events=", "a", "+", "memory-tagging+", "QThreadEvents=1"]);
        feats.push(f);
    }
    match s.below(4) {
        0 | 1 => { let i = s.usize(feats.len() + 1); feats.insert(i, "multiprocess+"); mp = Some(true) }
        2 => { let i = s.usize(feats.len() + 1); feats.insert(i, "multiprocess-"); mp = Some(false) }
        _ if s.chance(1, 8) => {
            // the last word counts
            let on = s.bool();
            let (a, b) = if on { ("multiprocess-", "multiprocess+") } else { ("multiprocess+", "multiprocess-") };
            let i = s.usize(feats.len() + 1);
            feats.insert(i, a);
            let j = i + 1 + s.usize(feats.len() - i);
            feats.insert(j, b);
            mp = Some(on);
        }
        _ => {}
    }
    if s.chance(1, 8) { feats.push(""); }
    let list = feats.join(";");
    let body = if feats.is_empty() && s.bool() { b"qSupported".to_vec() } else { cat(&[b"qSupported:", s8(&list)]) };
    Cmd::new("qSupported", mask, body, move |m, o| {
        let full = m.full;
        judge_simple(m, o, mask, &[], rep(move |m, _, x| {
            let mut got: Vec<String> = String::from_utf8_lossy(x).split(';').map(|s| s.to_string()).collect();
            let mut size = None;
            got.retain(|g| match g.strip_prefix("PacketSize=") { Some(n) => { size = Some(n.to_string()); false } None => true });
            let Some(sz) = size else { return fault(mask, "packet-size", "no packet size") };
            let n = num(mask, sz.as_bytes())?;
            want!(mask, n == full as u128, "packet-size", "packet size {} but the buffer holds {:x}", sz, full);
            let mut want = feature_set(m);
            want.sort();
            got.sort();
            want!(mask, got == want, "features", "listed {:?}\nexpected {:?}", got, want);
            Ok(())
        }))?;
        if let Some(b) = mp { m.mp = b }
        Ok(())
    })
}

fn noack(_s: &mut Src, m: &Model) -> Cmd {
    let mask = p(5);
    let body = b"QStartNoAckMode".to_vec();
    if !m.cfg.on(F::NoAck) { return Cmd::new("QStartNoAckMode-unsupported", mask, body, unsup(mask)) }
    Cmd::new("QStartNoAckMode", mask, body, move |m, o| { judge_simple(m, o, mask, &[], Rep::Ok)?; m.acks = false; Ok(()) })
}

fn unknown(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(18);
    // requests of the protocol (or invented) that the stub does not implement; some start like one that it does
    const U: &[&str] = &[
        "qTStatusX", "vMustReplyEmpty", "qSymbol::", "qCRC:1000,20", "vAttachWait;66", "vAttachName;666f6f", "vAttachOrWait;66", "A6,0,31", "b9600", "B1000,S", "d", "i", "i100,2", "I", "r", "t1000:a,b", "x1000,4",
        "QNonStop:1", "QPassSignals:e;10", "QProgramSignals:0;1", "QThreadEvents:1", "qL1160000000000000000", "qP0000001f0000000000000001", "qSearch:memory:1000;10;aa",
        "qTMinFTPILen", "qTfSTM", "qTsSTM", "qTSTMat:1000", "QTDV:1:2:0:00", "QTDisconnected:1", "QTEnable:1:1000", "QTDisable:1:1000", "QTNotes:note:61", "QTSave:61", "QTro:1000,2000", "Qbtrace:bts", "Qbtrace-conf:bts:size=1",
        "qXfer:btrace:read:all:0,100", "qXfer:siginfo:read::0,100", "qXfer:threads:read::0,100", "qXfer:osdata:read:processes:0,100", "qXfer:sdata:read::0,10", "qXfer:spu:read:a:0,10", "qXfer:statictrace:read::0,10", "qXfer:traceframe-info:read::0,10", "qXfer:uib:read:1:0,10", "qXfer:fdpic:read:exec:0,10", "qXfer:libraries:read::0,100", "qXfer:siginfo:write::0:00",
        "vStopped", "vCtrlC", "vStdio", "vFlashErase:100,10", "vFlashDone", "vFile:", "vFile:mkdir:61,1ff", "vFile:lstat:61", "vFile:stat:61",
        "qGetTLSAddr:1,0,0", "qGetTIBAddr:1", "jThreadsInfo", "jGetLoadedDynamicLibrariesInfos:{}", "qHostInfo", "qProcessInfo", "qGDBServerVersion", "QThreadSuffixSupported", "QListThreadsInStopReply", "qMemoryRegionInfo:0", "qWatchpointSupportInfo:", "qVAttachOrWaitSupported", "QSetDetachOnError:1", "_M100,rwx", "QSaveRegisterState", "qModuleInfo:61;62", "qFileLoadAddress:61", "qStepPacketSupported", "qSyncThreadStateSupported", "qShlibInfoAddr",
        "zz", "Y", "", "0", "*", "vvvv", "v", "q", "Q", "QAgent:1", "QAllow:WriteReg:1", "!!", "%Stop:T05", "N", "O4142", "F0", "E01", "OK", "W00", "l", "n", "u", "w", "y", "j", "J", "K", "L", "U", "V",
    ];
    let mut body = s.pick(U).as_bytes().to_vec();
    if s.chance(1, 10) { let l = s.lim(40, 2000); let extra = s.bytes(l); body = cat(&[b"qvz", &extra]); body.retain(|c| *c != b'#'); }
    if s.chance(1, 12) { body = cat(&[s.pick(&[&b"\x03"[..], b"+", b"-", b"\x03\x03", b"\x04", b"\x03c", b"-OK", b"\x03g"]), if s.bool() { b"" } else { &body[..] }]) }
    // some of these are known when a feature is there
    let c = &m.cfg;
    if body.starts_with(b"z") && c.on(F::Bp) { body = b"vMustReplyEmpty".to_vec() }
    if body == b"!!" && c.on(F::Ext) { body = b"vStopped".to_vec() }
    if body == b"qTStatusX" && c.on(F::Trace) { body = b"vStopped".to_vec() }
    if !c.resume() && c.on(F::RStub) && matches!(body.first(), Some(b'c' | b'C' | b's' | b'S')) { body = b"vStopped".to_vec() }
    Cmd::new("unknown", mask, body, unsup(mask))
}

// ------------------------------------------------------------------ object transfer

fn window(s: &mut Src, len: usize) -> (u64, u64) {
    let off = match s.below(6) { 0 | 1 => 0, 2 => len as u64, 3 => s.num(64), _ => s.below(len as u64 + 2) };
    let n = match s.below(6) { 0 => 1 + s.below(8), 1 => s.num(64).max(1), 2 => 0xffb, _ => 1 + s.below(s.lim(300, 30_000) as u64) };
    (off, n)
}
/// reply of a windowed read of `b` (what the target returned), `total` bytes in all
fn xfer_reply(mask: M, x: &[u8], b: &[u8], off: u64, total: usize, far: u64) -> JR {
    want!(mask, matches!(x.first(), Some(b'l') | Some(b'm')), "xfer-reply", "transfer reply {}", show(x));
    let data = unescape(&x[1..]).map_err(|e| Fault { mask: mask | p(3), sig: "xfer-escape".into(), msg: format!("{}: {}", e, show(x)) })?;
    want!(mask, data == b, "xfer-data", "the target returned {} but the reply carries {}", show(b), show(&data));
    let at_end = off as u128 % (if far > 0 { far as u128 } else { 1 << 70 }) + b.len() as u128 >= total as u128;
    if x[0] == b'l' { want!(mask, at_end, "xfer-early-end", "end of object claimed at {} of {}", off as u128 + b.len() as u128, total); }
    else { want!(mask, !b.is_empty(), "xfer-no-progress", "more data promised but none sent"); }
    Ok(())
}

fn xfer(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(19) | p(31);
    let which = s.below(4);
    let (name, obj, f) = match which { 0 => ("memory-map", Obj::MemMap, F::MemMap), 1 => ("exec-file", Obj::ExecFile, F::ExecFile), 2 => ("auxv", Obj::Auxv, F::Auxv), _ => ("libraries-svr4", Obj::Svr4, F::Svr4) };
    let mut annex = vec![];
    let mut pd = None;
    if obj == Obj::ExecFile && s.bool() { let v = gen_tid(s); pd = Some(v); annex = enumx(s, v as u128); }
    let total = m.st.borrow().obj(obj, pd, b"").len();
    let (mut off, len) = window(s, total);
    let far = m.st.borrow().b.far;
    if far > 0 && s.bool() && off < far { off += far }
    let (oe, le) = (enumx(s, off as u128), enumx(s, len as u128));
    let mut body = cat(&[b"qXfer:", s8(name), b":read:", &annex, b":", &oe, b",", &le]);
    if !m.cfg.on(f) { return Cmd::new("qXfer-unsupported", mask, body, unsup(p(19))) }
    if s.chance(1, 80) {
        body = match s.below(3) {
            0 => cat(&[b"qXfer:", s8(name), b":read::", b"10000000000000000,10"]),
            1 => cat(&[b"qXfer:", s8(name), b":read::0"]),
            _ => cat(&[b"qXfer:", s8(name), b":read::0,10000000000000000"]),
        };
        return Cmd::new("qXfer-bad", mask, body, reject(mask, none));
    }
    Cmd::new("qXfer", mask, body, move |m, o| judge_xfer(m, o, mask, obj, pd, b"", off, len, total))
}
fn judge_xfer(m: &mut Model, o: &Obs, mask: M, obj: Obj, pd: Option<usize>, annex: &[u8], off: u64, len: u64, total: usize) -> JR {
    let (room, clen) = match o.calls.first() { Some(Call { k: K::Xfer { room, len: l, .. }, .. }) => (*room, *l), _ => (1, len as usize) };
    want!(mask, room > 0, "xfer-room", "the target got no room at all");
    want!(mask, clen == len as usize, "xfer-length", "length {:x} requested, the target was asked for {:x}", len, clen);
    let k = K::Xfer { obj, pid: pd, annex: annex.to_vec(), off, len: len as usize, room };
    let far = m.st.borrow().b.far;
    judge_simple(m, o, mask, &[k], rep(move |_, o, x| {
        let Out::Bytes(b) = &o.calls[0].out else { return fault(ALL, "harness", "xfer") };
        xfer_reply(mask, x, b, off, total, far)
    }))
}

fn xml(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(37) | p(31);
    let c = &m.cfg;
    let on = c.on(F::UseXml) && (m.xml.is_some() || c.on(F::XmlOvr));
    let ovr = c.on(F::XmlOvr);
    let annex: Vec<u8> = match s.below(6) { 0 if ovr => { let n = s.len(12); (0..n).map(|i| b"abc.xml-12"[(i * 7 + s.usize(3)) % 10]).collect() } 1 if ovr => b"core.xml".to_vec(), _ => b"target.xml".to_vec() };
    let text: Option<Vec<u8>> = m.xml.map(|x| x.trim().as_bytes().to_vec());
    let total = if ovr { m.st.borrow().obj(Obj::Xml, None, &annex).len() } else { text.as_ref().map_or(0, |t| t.len()) };
    let (off, len) = window(s, total);
    let (oe, le) = (enumx(s, off as u128), enumx(s, len as u128));
    let body = cat(&[b"qXfer:features:read:", &annex, b":", &oe, b",", &le]);
    if !on { return Cmd::new("xml-unsupported", mask, body, unsup(p(37))) }
    if ovr { return Cmd::new("xml-override", mask, body, move |m, o| judge_xfer(m, o, mask, Obj::Xml, None, &annex, off, len, total)) }
    if s.chance(1, 40) {
        let body = cat(&[b"qXfer:features:read:other.xml:", &oe, b",", &le]);
        return Cmd::new("xml-annex", mask, body, reject(mask, none));
    }
    Cmd::new("xml", mask, body, simple(mask, vec![], rep(move |_, _, x| {
        let t = text.unwrap();
        want!(mask, matches!(x.first(), Some(b'l') | Some(b'm')), "xfer-reply", "transfer reply {}", show(x));
        let data = unescape(&x[1..]).map_err(|e| Fault { mask, sig: "xfer-escape".into(), msg: e })?;
        let from = (off as u128).min(t.len() as u128) as usize;
        let avail = &t[from..];
        want!(mask, avail.starts_with(&data) && data.len() as u128 <= len as u128, "xml-data", "window {}+{}: reply {} of a description of {} bytes", off, len, show(x), t.len());
        if x[0] == b'l' { want!(mask, data.len() == avail.len(), "xfer-early-end", "end of description claimed at {} of {}", from + data.len(), t.len()); }
        else { want!(mask, !data.is_empty(), "xfer-no-progress", "more data promised but none sent"); }
        Ok(())
    })))
}

// ------------------------------------------------------------------ host i/o

const OPEN_FLAGS: u32 = 0x0 | 0x1 | 0x2 | 0x8 | 0x200 | 0x400 | 0x800;
fn open_mode_bits() -> u32 { gdbstub::target::ext::host_io::HostIoOpenMode::all().bits() }
/// `F<result>[;<attachment>]`
fn f_reply(mask: M, x: &[u8]) -> Result<(u128, Option<Vec<u8>>), Fault> {
    let Some(r) = x.strip_prefix(b"F") else { return fault(mask, "hostio-reply", format!("reply {}", show(x))) };
    match r.iter().position(|c| *c == b';') {
        None => Ok((num(mask, r)?, None)),
        Some(i) => {
            let d = unescape(&r[i + 1..]).map_err(|e| Fault { mask: mask | p(3), sig: "hostio-escape".into(), msg: format!("{}: {}", e, show(x)) })?;
            Ok((num(mask, &r[..i])?, Some(d)))
        }
    }
}
fn fnum(mask: M, x: &[u8], v: u128) -> JR {
    let (n, a) = f_reply(mask, x)?;
    want!(mask | p(31), n == v && a.is_none(), "hostio-result", "result {:x} sent as {}", v, show(x));
    Ok(())
}
fn fname(s: &mut Src) -> Vec<u8> { let l = if s.chance(1, 8) { s.lim(200, 2000) } else { s.lim(24, 600) }; s.bytes(l) }

fn hostio(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(20) | p(31);
    let c = m.cfg;
    let fd = s.num(32) as u32;
    let fde = enumx(s, fd as u128);
    let toobig = s.chance(1, 100) && [F::HOpen, F::HClose, F::HPread, F::HPwrite, F::HFstat].iter().all(|f| c.hio(*f));
    let fde = if toobig { b"100000000".to_vec() } else { fde };
    let us = |f: F, body: Vec<u8>| -> Option<Cmd> { if c.hio(f) { None } else { Some(Cmd::new("vFile-unsupported", mask, body, unsup(p(20)))) } };
    let bad = |body: Vec<u8>| Cmd::new("vFile-bad", mask, body, reject(mask, none));
    match s.below(8) {
        0 => {
            let f = fname(s);
            let fl = s.raw() as u32 & OPEN_FLAGS & if s.bool() { 0xffff } else { 0x203 };
            let md = s.raw() as u32 & open_mode_bits();
            let (fe, fle, me) = (ehex(s, &f), enumx(s, fl as u128), enumx(s, md as u128));
            let b = cat(&[b"vFile:open:", &fe, b",", &fle, b",", &me]);
            if let Some(c) = us(F::HOpen, b.clone()) { return c }
            if toobig { return bad(cat(&[b"vFile:open:", &fe, b",100000000,", &me])) }
            Cmd::new("vFile:open", mask, b, simple(mask, vec![K::HOpen(f, fl, md)], rep(move |_, o, x| {
                let Out::Num(n) = o.calls[0].out else { return fault(ALL, "harness", "open") };
                fnum(mask, x, n)
            })))
        }
        1 => {
            let b = cat(&[b"vFile:close:", &fde]);
            if let Some(c) = us(F::HClose, b.clone()) { return c }
            if toobig { return bad(b) }
            Cmd::new("vFile:close", mask, b, simple(mask, vec![K::HClose(fd)], rep(move |_, _, x| fnum(mask, x, 0))))
        }
        2 => {
            let count = match s.below(3) { 0 => s.num(64), _ => s.below(s.lim(300, 30_000) as u64) };
            let off = s.num(64);
            let (ce, oe) = (enumx(s, count as u128), enumx(s, off as u128));
            let b = cat(&[b"vFile:pread:", &fde, b",", &ce, b",", &oe]);
            if let Some(c) = us(F::HPread, b.clone()) { return c }
            if toobig { return bad(b) }
            Cmd::new("vFile:pread", mask, b, move |m, o| {
                let room = match o.calls.first() { Some(Call { k: K::HPread { room, .. }, .. }) => *room, _ => 1 };
                want!(mask, room > 0, "hostio-room", "no room for the data");
                let k = K::HPread { fd, count: count as usize, off, room };
                judge_simple(m, o, mask, &[k], rep(move |_, o, x| {
                    let Out::Bytes(b) = &o.calls[0].out else { return fault(ALL, "harness", "pread") };
                    let (n, a) = f_reply(mask, x)?;
                    want!(mask, n == b.len() as u128, "hostio-result", "{} bytes read, reply {}", b.len(), show(x));
                    want!(mask, a.as_deref() == Some(&b[..]), "hostio-data", "data {} sent as {}", show(b), show(x));
                    Ok(())
                }))
            })
        }
        3 => {
            let (a, ae, fits) = addr(s, m);
            let l = if s.chance(1, 6) { s.lim(300, 6000) } else { s.lim(30, 600) };
            let d = s.bytes(l);
            let de = escape(s, &d);
            let b = cat(&[b"vFile:pwrite:", &fde, b",", &ae, b",", &de]);
            if let Some(c) = us(F::HPwrite, b.clone()) { return c }
            if toobig || !fits { return bad(b) }
            Cmd::new("vFile:pwrite", mask, b, simple(mask, vec![K::HPwrite(fd, a, d)], rep(move |_, o, x| {
                let Out::Num(n) = o.calls[0].out else { return fault(ALL, "harness", "pwrite") };
                fnum(mask, x, n)
            })))
        }
        4 => {
            let b = cat(&[b"vFile:fstat:", &fde]);
            if let Some(c) = us(F::HFstat, b.clone()) { return c }
            if toobig { return bad(b) }
            Cmd::new("vFile:fstat", mask, b, simple(mask, vec![K::HFstat(fd)], rep(move |_, o, x| {
                let Out::Stat(v) = &o.calls[0].out else { return fault(ALL, "harness", "fstat") };
                let (n, a) = f_reply(mask, x)?;
                let a = a.unwrap_or_default();
                want!(mask, n == 64 && a.len() == 64, "fstat-size", "file status of {} bytes ({:x}): {}", a.len(), n, show(x));
                let mut want = vec![];
                for (i, f) in v.iter().enumerate() {
                    if (7..10).contains(&i) { want.extend_from_slice(&f.to_be_bytes()) } else { want.extend_from_slice(&(*f as u32).to_be_bytes()) }
                }
                want!(mask, a == want, "fstat-layout", "file status {:x?} sent as {}", v, hex(&a));
                Ok(())
            })))
        }
        5 => {
            let f = fname(s);
            let fe = ehex(s, &f);
            let b = cat(&[b"vFile:unlink:", &fe]);
            if let Some(c) = us(F::HUnlink, b.clone()) { return c }
            Cmd::new("vFile:unlink", mask, b, simple(mask, vec![K::HUnlink(f)], rep(move |_, _, x| fnum(mask, x, 0))))
        }
        6 => {
            let f = fname(s);
            let fe = ehex(s, &f);
            let b = cat(&[b"vFile:readlink:", &fe]);
            if let Some(c) = us(F::HReadlink, b.clone()) { return c }
            Cmd::new("vFile:readlink", mask, b, simple(mask, vec![K::HReadlink(f)], rep(move |_, o, x| {
                let Out::Bytes(b) = &o.calls[0].out else { return fault(ALL, "harness", "readlink") };
                let (n, a) = f_reply(mask, x)?;
                want!(mask, n == b.len() as u128 && a.as_deref() == Some(&b[..]), "hostio-data", "link {} sent as {}", show(b), show(x));
                Ok(())
            })))
        }
        _ => {
            let pd = if s.chance(1, 3) { 0 } else { gen_tid(s) };
            let pe = enumx(s, pd as u128);
            let b = cat(&[b"vFile:setfs:", &pe]);
            if let Some(c) = us(F::HSetfs, b.clone()) { return c }
            Cmd::new("vFile:setfs", mask, b, simple(mask, vec![K::HSetfs((pd != 0).then_some(pd))], rep(move |_, _, x| fnum(mask, x, 0))))
        }
    }
}

// ------------------------------------------------------------------ extended mode

fn ext(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(21) | p(31);
    let on = m.cfg.on(F::Ext);
    let us = |body: Vec<u8>| Cmd::new("ext-unsupported", mask, body, unsup(p(21)));
    match s.below(6) {
        0 | 1 => {
            let l = s.lim(20, 800);
            let name = if s.chance(1, 4) { vec![] } else { s.bytes(l) };
            let n = match s.below(4) { 0 => 0, 1 => 1, _ => s.below(s.lim(6, 70) as u64) } as usize;
            let l = s.lim(12, 90);
            let args: Vec<Vec<u8>> = (0..n).map(|_| if s.chance(1, 5) { vec![] } else { s.bytes(l) }).collect();
            let ne = ehex(s, &name);
            let mut b = cat(&[b"vRun;", &ne]);
            for a in &args { let e = ehex(s, a); b.push(b';'); b.extend(e) }
            if !on { return us(b) }
            let f = if name.is_empty() { None } else { Some(name) };
            Cmd::new("vRun", mask, b, simple(mask, vec![K::Run(f, args)], rep(move |m, _, x| reasonable(m, mask, x))))
        }
        2 => {
            let pd = gen_tid(s);
            let pe = enumx(s, pd as u128);
            let b = cat(&[b"vAttach;", &pe]);
            if !on { return us(b) }
            if !m.cfg.ext(F::CurPid) {
                return Cmd::new("vAttach-nopid", mask, b, reject(mask, none));
            }
            Cmd::new("vAttach", mask, b, simple(mask, vec![K::Attach(pd)], rep(move |m, _, x| reasonable(m, mask, x))))
        }
        3 => {
            if !on { return us(b"R00".to_vec()) }
            let (_, e) = signal(s);
            Cmd::new("R", mask, cat(&[b"R", &e]), move |m, o| {
                if let Some(e) = calls_are(o, mask, &[K::Restart])? { return after_err(m, o, mask, &e) }
                if let Kind::Dead(e) = &o.kind { return fault(mask, "session-error", e.text.clone()) }
                want!(mask, o.pkts.len() <= 1, "reply-count", "restart answered with {:?}", o.pkts);
                same_state(m, o, mask)
            })
        }
        4 => {
            if !on { return us(b"!".to_vec()) }
            Cmd::new("!", mask, b"!".to_vec(), simple(mask, vec![K::OnStart], Rep::Ok))
        }
        _ => {
            let pd = s.bool().then(|| gen_tid(s));
            let b = match pd { Some(v) => { let e = enumx(s, v as u128); cat(&[b"qAttached:", &e]) } None => b"qAttached".to_vec() };
            match (on, pd) {
                (true, Some(v)) => Cmd::new("qAttached:pid", mask, b, simple(mask, vec![K::QueryAtt(v)], rep(move |_, o, x| {
                    let a = o.calls[0].out == Out::Bool(true);
                    want!(mask, x == if a { b"1" } else { b"0" }, "attached", "attached {} reported as {}", a, show(x));
                    Ok(())
                }))),
                _ => Cmd::new("qAttached", mask, b, simple(mask, vec![], rep(move |_, _, x| { want!(mask, x == b"1", "attached", "with no process to ask about the target counts as attached, reply {}", show(x)); Ok(()) }))),
            }
        }
    }
}

fn settings(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(21);
    let us = |body: Vec<u8>| Cmd::new("settings-unsupported", mask, body, unsup(p(21)));
    let c = m.cfg;
    match s.below(6) {
        0 => {
            let v = s.bool();
            let b = cat(&[b"QDisableRandomization:", if v { b"1" } else { b"0" }]);
            if !c.ext(F::Aslr) { return us(b) }
            Cmd::new("QDisableRandomization", mask, b, simple(mask, vec![K::Aslr(v)], Rep::Ok))
        }
        1 => {
            let v = s.bool();
            let b = cat(&[b"QStartupWithShell:", if v { b"1" } else { b"0" }]);
            if !c.ext(F::Shell) { return us(b) }
            Cmd::new("QStartupWithShell", mask, b, simple(mask, vec![K::Shell(v)], Rep::Ok))
        }
        2 => {
            let l = s.lim(30, 1500);
            let d = if s.chance(1, 4) { vec![] } else { s.bytes(l) };
            let e = ehex(s, &d);
            let b = cat(&[b"QSetWorkingDir:", &e]);
            if !c.ext(F::Wdir) { return us(b) }
            Cmd::new("QSetWorkingDir", mask, b, simple(mask, vec![K::Wdir(if d.is_empty() { None } else { Some(d) })], Rep::Ok))
        }
        3 => {
            let l = s.lim(16, 400);
            let mut k = s.bytes(l);
            k.retain(|c| *c != b'=');
            let l = s.lim(24, 1500);
            let v = if s.chance(1, 4) { vec![] } else { s.bytes(l) };
            let kv = cat(&[&k, b"=", &v]);
            let e = ehex(s, &kv);
            let b = cat(&[b"QEnvironmentHexEncoded:", &e]);
            if !c.ext(F::Env) { return us(b) }
            if s.chance(1, 60) {
                let e = ehex(s, &k);
                return Cmd::new("env-bad", mask, cat(&[b"QEnvironmentHexEncoded:", &e]), reject(mask, none));
            }
            Cmd::new("QEnvironmentHexEncoded", mask, b, simple(mask, vec![K::SetEnv(k, if v.is_empty() { None } else { Some(v) })], Rep::Ok))
        }
        4 => {
            let l = s.lim(16, 400);
            let k = s.bytes(l);
            let e = ehex(s, &k);
            let b = cat(&[b"QEnvironmentUnset:", &e]);
            if !c.ext(F::Env) { return us(b) }
            Cmd::new("QEnvironmentUnset", mask, b, simple(mask, vec![K::RmEnv(k)], Rep::Ok))
        }
        _ => {
            let b = b"QEnvironmentReset".to_vec();
            if !c.ext(F::Env) { return us(b) }
            Cmd::new("QEnvironmentReset", mask, b, simple(mask, vec![K::ResetEnv], Rep::Ok))
        }
    }
}

fn kill(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(15);
    let pd = s.bool().then(|| gen_tid(s));
    let body = match pd { Some(v) => { let e = enumx(s, v as u128); cat(&[b"vKill;", &e]) } None => b"k".to_vec() };
    if !m.cfg.on(F::Ext) {
        return Cmd::new("kill", mask, body, move |m, o| {
            no_calls(o, mask)?;
            if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
            want!(mask | p(14), o.kind == Kind::Disc(DR::Kill), "kill-state", "after a kill the session is {:?}", o.kind);
            want!(mask, o.pkts.iter().all(|x| x.is_empty() || x == b"OK"), "kill-reply", "kill answered with {:?}", o.pkts);
            m.kind = MK::Disc(DR::Kill);
            Ok(())
        });
    }
    let mask = mask | p(21);
    Cmd::new("kill-ext", mask, body, move |m, o| {
        if let Some(e) = calls_are(o, mask, &[K::Kill(pd)])? { return after_err(m, o, mask, &e) }
        let x = one(o, mask)?;
        want!(mask, x == b"OK", "kill-reply", "kill answered with {}", show(x));
        if o.calls[0].out == Out::Bool(true) {
            want!(mask | p(14), o.kind == Kind::Disc(DR::Kill), "kill-state", "the target agreed to end but the session is {:?}", o.kind);
            m.kind = MK::Disc(DR::Kill);
            Ok(())
        } else { same_state(m, o, mask) }
    })
}

fn detach(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(15);
    let _ = m;
    let body = if s.bool() { b"D".to_vec() } else { let v = gen_tid(s); let e = enumx(s, v as u128); cat(&[b"D;", &e]) };
    Cmd::new("D", mask, body, move |m, o| {
        no_calls(o, mask)?;
        let x = one(o, mask)?;
        want!(mask, x == b"OK", "detach-reply", "detach answered with {}", show(x));
        want!(mask | p(14), o.kind == Kind::Disc(DR::Disconnect), "detach-state", "after a detach the session is {:?}", o.kind);
        m.kind = MK::Disc(DR::Disconnect);
        Ok(())
    })
}

// ------------------------------------------------------------------ monitor commands, syscalls, offsets

fn monitor(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(22);
    let l = s.lim(40, 2000);
    let c = if s.chance(1, 8) { vec![] } else { s.bytes(l) };
    let e = ehex(s, &c);
    let body = cat(&[b"qRcmd,", &e]);
    if !m.cfg.on(F::Monitor) { return Cmd::new("qRcmd-unsupported", mask, body, unsup(mask)) }
    if s.chance(1, 60) { return Cmd::new("qRcmd-bad", mask, b"qRcmd,zz".to_vec(), reject(mask, none)) }
    Cmd::new("qRcmd", mask, body, move |m, o| {
        if let Some(e) = calls_are(o, mask, &[K::Monitor(c)])? { return after_err(m, o, mask, &e) }
        let Out::Chunks(ch) = &o.calls[0].out else { return fault(ALL, "harness", "monitor") };
        if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
        let want: Vec<u8> = ch.concat();
        let Some((last, outs)) = o.pkts.split_last() else { return fault(mask | p(3), "reply-count", "no reply") };
        want!(mask, last == b"OK", "monitor-ok", "the last packet is {}", show(last));
        let mut got = vec![];
        for q in outs {
            let Some(d) = q.strip_prefix(b"O").and_then(|h| unhex(h).ok()) else { return fault(mask, "monitor-packet", format!("not a console packet: {}", show(q))) };
            want!(mask, !d.is_empty(), "monitor-empty", "an empty console packet");
            got.extend(d);
        }
        want!(mask, got == want, "monitor-text", "printed {}\narrived {}", show(&want), show(&got));
        // what was flushed explicitly must have left by then
        let marks = std::mem::take(&mut m.st.borrow_mut().marks);
        for (n, sent) in marks {
            let Ok(toks) = tokenize2(&sent, true) else { return fault(mask, "monitor-flush", format!("sent so far: {}", show(&sent))) };
            let mut got = vec![];
            for t in toks { if let Tok::Pkt { raw, .. } = t {
                let b = rle_expand(&raw).unwrap_or(raw);
                if let Some(d) = b.strip_prefix(b"O").and_then(|h| unhex(h).ok()) { got.extend(d) }
            } }
            want!(mask, got == want[..n], "monitor-flush", "{} bytes were printed and flushed, but only {} have been sent (all: {})", n, got.len(), show(&want));
        }
        same_state(m, o, mask)
    })
}

fn catch_sys(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(23) | p(31);
    let kind = s.below(6);
    if kind == 0 {
        let b = b"QCatchSyscalls:0".to_vec();
        if !m.cfg.on(F::Catch) { return Cmd::new("QCatchSyscalls-unsupported", mask, b, unsup(p(23))) }
        return Cmd::new("QCatchSyscalls:0", mask, b, simple(mask, vec![K::CatchOff], Rep::Ok));
    }
    let n = if kind == 1 { 0 } else { 1 + s.len(s.lim(8, 300)) };
    let mut b = b"QCatchSyscalls:1".to_vec();
    let mut v = vec![];
    let mut bad = false;
    for _ in 0..n {
        let (x, _, fits) = addr(s, m);
        // numbers with an even number of digits are byte strings to any decoder
        let e = if s.bool() { format!("{:x}", x) } else if s.bool() { format!("{:02X}", x) } else { let t = format!("{:x}", x); if t.len() % 2 == 1 { format!("0{}", t) } else { t } };
        b.push(b';');
        b.extend_from_slice(e.as_bytes());
        if !fits { bad = true }
        v.push(x);
    }
    if !m.cfg.on(F::Catch) { return Cmd::new("QCatchSyscalls-unsupported", mask, b, unsup(p(23))) }
    if bad {
        return Cmd::new("QCatchSyscalls-toobig", mask, b, move |m, o| {
            // never changed silently: an error, whatever the target was told before it is a prefix of the request
            if let Kind::Panicked(t) = &o.kind { return fault(mask | p(2), "panic", t.clone()) }
            for c in o.calls {
                let K::CatchOn(Some(l)) = &c.k else { return fault(mask, "catch-list", format!("{:?}", c)) };
                want!(mask, v.starts_with(l), "catch-list", "requested {:x?}, the target got {:x?}", v, l);
                if let Some(e @ E::Fatal(_)) = c.err() { return after_err(m, o, mask, &e.clone()) }
            }
            match &o.kind {
                Kind::Dead(e) => { want!(mask | p(27), !e.is_target && !e.is_conn, "reject-class", "{:?}", e); m.kind = MK::Gone; Ok(()) }
                _ => { let x = one(o, mask)?; want!(mask, x.first() == Some(&b'E'), "catch-silent", "a number that does not fit was accepted: {}", show(x)); same_state(m, o, mask) }
            }
        });
    }
    let l = if kind == 1 { None } else { Some(v) };
    Cmd::new("QCatchSyscalls:1", mask, b, simple(mask, vec![K::CatchOn(l)], Rep::Ok))
}

fn offs(_s: &mut Src, m: &Model) -> Cmd {
    let mask = p(34) | p(31);
    let b = b"qOffsets".to_vec();
    if !m.cfg.on(F::SecOff) { return Cmd::new("qOffsets-unsupported", mask, b, unsup(p(34))) }
    Cmd::new("qOffsets", mask, b, simple(mask, vec![K::SecOff], rep(move |_, o, x| {
        let Out::Offs(w) = &o.calls[0].out else { return fault(ALL, "harness", "offs") };
        let mut got: Vec<(String, u128)> = vec![];
        for f in x.split(|c| *c == b';') {
            let Some(i) = f.iter().position(|c| *c == b'=') else { return fault(mask, "offsets", format!("reply {}", show(x))) };
            got.push((String::from_utf8_lossy(&f[..i]).into(), num(mask, &f[i + 1..])?));
        }
        let want: Vec<(&str, u128)> = match w {
            Offs::Sec(a, b, c) => vec![("Text", *a), ("Data", *b), ("Bss", c.unwrap_or(*b))],
            Offs::Seg(a, None) => vec![("TextSeg", *a)],
            Offs::Seg(a, Some(b)) => vec![("TextSeg", *a), ("DataSeg", *b)],
        };
        want!(mask, got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1 == w.1), "offsets", "offsets {:x?} sent as {}", w, show(x));
        Ok(())
    })))
}

// ------------------------------------------------------------------ tracepoints

fn tnum(s: &mut Src, m: &Model) -> usize {
    let st = m.st.borrow();
    if !st.tps.is_empty() && s.chance(2, 3) { st.tps[s.usize(st.tps.len())].def.num } else { match s.below(3) { 0 => s.num(64) as usize, _ => 1 + s.usize(300) } }
}

fn tdef(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(24) | p(31);
    let on = m.cfg.on(F::Trace);
    let us = |b: Vec<u8>| Cmd::new("trace-unsupported", mask, b, unsup(p(24)));
    let n = tnum(s, m);
    let ne = enumx(s, n as u128);
    let (a, ae, fits) = addr(s, m);
    match s.below(8) {
        0 => {
            if !on { return us(b"QTinit".to_vec()) }
            Cmd::new("QTinit", mask, b"QTinit".to_vec(), move |m, o| { m.items = None; if m.cur != Cur::None { m.cur = Cur::Stale } judge_simple(m, o, mask, &[K::TInit], Rep::Ok) })
        }
        1..=3 => {
            let d = TpDef { num: n, addr: a, enabled: s.bool(), step: s.num(64), pass: s.num(64) };
            let (se, pe) = (enumx(s, d.step as u128), enumx(s, d.pass as u128));
            let more = s.bool();
            let b = cat(&[b"QTDP:", &ne, b":", &ae, b":", if d.enabled { b"E" } else { b"D" }, b":", &se, b":", &pe, if more { b"-" } else { b"" }]);
            if !on { return us(b) }
            if !fits { return Cmd::new("QTDP-toobig", mask, b, reject(mask, none)) }
            if s.chance(1, 80) {
                let b = cat(&[b"QTDP:", &ne, b":", &ae, b":E:", &se, b":", &pe, s.pick(&[&b":F5"[..], b":S", b":X3,220027", b":F5:X3,220027", b":X3,220027-", b":S-", b":F"])]);
                return Cmd::new("QTDP-option", mask, b, reject(mask, none));
            }
            let mut w = vec![K::TBegin(d)];
            if !more { w.push(K::TComplete(n)) }
            Cmd::new("QTDP", mask, b, move |m, o| { m.items = None; if m.cur != Cur::None { m.cur = Cur::Stale } judge_simple(m, o, mask, &w, Rep::Ok) })
        }
        4 | 5 => {
            let k = s.below(s.lim(5, 40) as u64) as usize;
            let mut acts = vec![];
            let mut enc = vec![];
            for _ in 0..k {
                if s.bool() {
                    let l = if s.chance(1, 8) { 0 } else { s.len(s.lim(12, 200)) };
                    let mk = s.bytes_n(l);
                    let h = ehex(s, &mk);
                    enc.push(b'R');
                    enc.extend(h);
                    acts.push(Act::Regs(mk));
                } else {
                    let l = s.lim(20, 300);
                    let ex = s.bytes(l);
                    let l = enumx(s, ex.len() as u128);
                    let h = ehex(s, &ex);
                    enc.push(b'X');
                    enc.extend(l);
                    enc.push(b',');
                    enc.extend(h);
                    acts.push(Act::Expr(ex));
                }
            }
            let more = s.bool();
            let b = cat(&[b"QTDP:-", &ne, b":", &ae, b":", &enc, if more { b"-" } else { b"" }]);
            if !on { return us(b) }
            if !fits { return Cmd::new("QTDP-toobig", mask, b, reject(mask, none)) }
            if s.chance(1, 40) {
                let t: &[u8] = s.pick(&[&b"M1,2,3"[..], b"S", b"X5,00", b"Q", b"Xzz,0", b"X8000000000000001,0011"]);
                let b = cat(&[b"QTDP:-", &ne, b":", &ae, b":", t]);
                return Cmd::new("QTDP-bad-action", mask, b, reject(mask, none));
            }
            if enc.contains(&b'X') && !more && s.chance(1, 30) {
                // text that belongs to no action, behind an expression or in between
                let at = if s.bool() { enc.len() } else { enc.iter().position(|c| *c == b'X').unwrap() };
                let good = at == enc.len() && matches!(acts.last(), Some(Act::Regs(_)));
                let t: &[u8] = if good || at < enc.len() { s.pick(&[&b"Q"[..], b"z", b",", b"=", b"-1"]) } else { s.pick(&[&b"0"[..], b"00", b"a", b"0X1,aa", b"Q", b"1R00", b",", b"--"]) };
                let b = cat(&[b"QTDP:-", &ne, b":", &ae, b":", &enc[..at], t, &enc[at..]]);
                return Cmd::new("QTDP-junk", mask, b, reject(mask, |k| matches!(k, K::TCont(..))));
            }
            Cmd::new("QTDP-", mask, b, move |m, o| {
                m.items = None;
                // after a recoverable error the remaining actions may or may not be delivered
                let mut first: Option<E> = None;
                let mut errs = vec![];
                for (i, c) in o.calls.iter().enumerate() {
                    let w = match acts.get(i) { Some(a) => Some(K::TCont(n, a.clone())), None if i == acts.len() && !more => Some(K::TComplete(n)), None => None };
                    want!(mask, w.as_ref() == Some(&c.k), "trace-action", "target call {:?}, expected {:?}", c.k, w);
                    if let Some(e) = &first {
                        want!(mask | p(27), !matches!(e, E::Fatal(_)), "call-after-fatal", "calls continue after a fatal error: {:?}", o.calls);
                        want!(mask | p(27), matches!(c.k, K::TCont(..)), "trace-complete", "the definition was completed although an action was refused: {:?}", o.calls);
                    }
                    if let Some(e) = c.err() { errs.push(e.clone()); first.get_or_insert(e.clone()); }
                }
                if let Some(e) = first {
                    if let Some(f) = errs.iter().find(|e| matches!(e, E::Fatal(_))) { return after_err(m, o, mask, f) }
                    // any of the reported errors
                    for x in &errs { if after_err(m, o, mask, x).is_ok() { return Ok(()) } }
                    return after_err(m, o, mask, &e);
                }
                let mut w: Vec<K> = acts.iter().map(|a| K::TCont(n, a.clone())).collect();
                if !more { w.push(K::TComplete(n)) }
                judge_simple(m, o, mask, &w, Rep::Ok)
            })
        }
        6 => {
            let kind = s.below(3) as u8;
            let (st, sl) = (s.num(32) as u32, s.num(32) as u32);
            let l = s.lim(30, 1500);
            let bytes = s.bytes(l);
            let (ste, sle, h) = (enumx(s, st as u128), enumx(s, sl as u128), ehex(s, &bytes));
            let kn: &[u8] = match kind { 0 => b"at", 1 => b"cond", _ => b"cmd" };
            let b = cat(&[b"QTDPsrc:", &ne, b":", &ae, b":", kn, b":", &ste, b":", &sle, b":", &h]);
            if !on || !m.cfg.src() { return us(b) }
            if !fits { return Cmd::new("QTDPsrc-toobig", mask, b, reject(mask, none)) }
            Cmd::new("QTDPsrc", mask, b, move |m, o| {
                m.items = None;
                judge_simple(m, o, mask, &[K::TAttachSrc(TpSrc { num: n, addr: a, kind, start: st, slen: sl, bytes })], Rep::Ok)
            })
        }
        _ => {
            let go = s.bool();
            let b = if go { b"QTStart".to_vec() } else { b"QTStop".to_vec() };
            if !on { return us(b) }
            Cmd::new("QTStart/Stop", mask, b, simple(mask, vec![if go { K::TStart } else { K::TStop }], Rep::Ok))
        }
    }
}

fn tbuf(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(24) | p(31);
    let (b, k) = match s.below(4) {
        0 => (b"QTBuffer:circular:1".to_vec(), K::TShape(true)),
        1 => (b"QTBuffer:circular:0".to_vec(), K::TShape(false)),
        2 => (b"QTBuffer:size:-1".to_vec(), K::TSize(None)),
        _ => { let v = s.num(64); let e = enumx(s, v as u128); (cat(&[b"QTBuffer:size:", &e]), K::TSize(Some(v))) }
    };
    if !m.cfg.on(F::Trace) { return Cmd::new("trace-unsupported", mask, b, unsup(p(24))) }
    Cmd::new("QTBuffer", mask, b, simple(mask, vec![k], Rep::Ok))
}

/// parse an item of the enumeration back
pub fn parse_item(mask: M, x: &[u8]) -> Result<TItem, Fault> {
    let bad = |w: &str| fault::<TItem>(mask, "trace-item", format!("{} in {}", w, show(x)));
    let f: Vec<&[u8]> = if x.is_empty() { vec![] } else { x[1..].split(|c| *c == b':').collect() };
    if f.len() < 3 { return bad("too few fields") }
    let n = num(mask, f[0])? as usize;
    let a = num(mask, f[1])?;
    match x[0] {
        b'T' => {
            if f.len() != 5 { return bad("field count") }
            let en = match f[2] { b"E" => true, b"D" => false, _ => return bad("enable flag") };
            Ok(TItem::Def(TpDef { num: n, addr: a, enabled: en, step: num(mask, f[3])? as u64, pass: num(mask, f[4])? as u64 }))
        }
        b'A' => {
            if f.len() != 3 { return bad("field count") }
            let act = match f[2].first() {
                Some(b'R') => Act::Regs(unhex(&f[2][1..]).or_else(|_| bad("mask").map(|_| vec![]))?),
                Some(b'M') => {
                    let q: Vec<&[u8]> = f[2][1..].split(|c| *c == b',').collect();
                    if q.len() != 3 { return bad("memory action") }
                    Act::Mem { base: if q[0] == b"-1" { None } else { Some(num(mask, q[0])? as u64) }, off: num(mask, q[1])?, len: num(mask, q[2])? as u64 }
                }
                Some(b'X') => {
                    let Some(i) = f[2].iter().position(|c| *c == b',') else { return bad("expression") };
                    let d = unhex(&f[2][i + 1..]).or_else(|_| bad("expression").map(|_| vec![]))?;
                    if num(mask, &f[2][1..i])? != d.len() as u128 { return bad("expression length") }
                    Act::Expr(d)
                }
                _ => return bad("action"),
            };
            Ok(TItem::Act(n, a, act))
        }
        b'Z' => {
            if f.len() != 6 { return bad("field count") }
            let kind = match f[2] { b"at" => 0, b"cond" => 1, b"cmd" => 2, _ => return bad("source kind") };
            Ok(TItem::Src(TpSrc { num: n, addr: a, kind, start: num(mask, f[3])? as u32, slen: num(mask, f[4])? as u32, bytes: unhex(f[5]).or_else(|_| bad("source").map(|_| vec![]))? }))
        }
        _ => bad("unknown item"),
    }
}

/// everything an enumeration must return
pub fn all_items(m: &Model) -> Vec<TItem> {
    let st = m.st.borrow();
    let mut v = vec![];
    for t in &st.tps {
        v.push(TItem::Def(t.def.clone()));
        let acts = t.acts.iter().map(|a| TItem::Act(t.def.num, t.def.addr, a.clone()));
        let srcs = t.srcs.iter().map(|s| TItem::Src(s.clone()));
        let src_ok = m.cfg.src();
        if st.b.src_first { if src_ok { v.extend(srcs) } v.extend(acts) } else { v.extend(acts); if src_ok { v.extend(srcs) } }
    }
    v
}

fn tenum(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(25) | p(31);
    let first = m.cur == Cur::Stale || (m.cur == Cur::None && !s.chance(1, 5)) || s.chance(1, if s.huge { 4000 } else { 12 });
    let b = if first { b"qTfP".to_vec() } else { b"qTsP".to_vec() };
    if !m.cfg.on(F::Trace) { return Cmd::new("trace-unsupported", mask, b, unsup(p(25))) }
    Cmd::new(if first { "qTfP" } else { "qTsP" }, mask, b, move |m, o| {
        let k = if first { m.items = Some(vec![]); Some(K::TEnumStart(None)) } else {
            match &m.cur {
                Cur::None | Cur::Stale => None,
                Cur::New(n, _) => Some(K::TEnumStart(Some(*n))),
                Cur::Action(n, _, i) => Some(K::TEnumAct(*n, *i)),
                Cur::Source(n, _, i) => Some(K::TEnumSrc(*n, *i)),
            }
        };
        let prev = if first { Cur::None } else { m.cur.clone() };
        if first { m.cur = Cur::None }
        let calls: Vec<K> = k.into_iter().collect();
        if let Some(e) = calls_are(o, mask, &calls)? {
            m.items = None;
            if first { m.cur = Cur::None }
            return after_err(m, o, mask, &e);
        }
        let x = one(o, mask)?;
        let (item, step) = match o.calls.first() { Some(c) => { let Out::Enum(i, st) = &c.out else { return fault(ALL, "harness", "enum") }; (i.clone(), st.clone()) } None => (None, EStep::Done) };
        match &item {
            None => want!(mask, x.is_empty() || x == b"l", "trace-end", "nothing left to report but the reply is {}", show(x)),
            Some(w) => {
                let g = parse_item(mask, x)?;
                want!(mask, g == *w, "trace-item", "item {:x?} sent as {}", w, show(x));
                if let Some(v) = &mut m.items { v.push(g) }
            }
        }
        let (n, a) = match (&prev, &item) {
            (_, Some(TItem::Def(d))) => (d.num, d.addr),
            (Cur::New(n, a) | Cur::Action(n, a, _) | Cur::Source(n, a, _), _) => (*n, *a),
            _ => (0, 0),
        };
        m.cur = match (step, &prev) {
            (EStep::Done, _) => Cur::None,
            (EStep::Action, Cur::Action(_, _, i)) => Cur::Action(n, a, i + 1),
            (EStep::Action, _) => Cur::Action(n, a, 0),
            (EStep::Source, Cur::Source(_, _, i)) => Cur::Source(n, a, i + 1),
            (EStep::Source, _) => Cur::Source(n, a, 0),
            (EStep::Next(n, a), _) => Cur::New(n, a),
        };
        if m.cur == Cur::None {
            if let Some(v) = m.items.take() {
                let want = all_items(m);
                want!(mask, v == want, "trace-enumeration", "enumerated {:x?}\nstored {:x?}", v, want);
            }
        }
        same_state(m, o, mask)
    })
}

fn tquery(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(25) | p(31);
    let on = m.cfg.on(F::Trace);
    let us = |b: Vec<u8>| Cmd::new("trace-unsupported", mask, b, unsup(p(25)));
    match s.below(6) {
        0 | 1 => {
            if !on { return us(b"qTStatus".to_vec()) }
            Cmd::new("qTStatus", mask, b"qTStatus".to_vec(), move |m, o| tstatus(m, o, mask))
        }
        2 => {
            let n = tnum(s, m);
            let (a, ae, fits) = addr(s, m);
            let ne = enumx(s, n as u128);
            let b = cat(&[b"qTP:", &ne, b":", &ae]);
            if !on { return us(b) }
            if !fits { return Cmd::new("qTP-toobig", mask, b, reject(mask, none)) }
            Cmd::new("qTP", mask, b, simple(mask, vec![K::TStatus(n, a)], rep(move |_, o, x| {
                let Out::TpStat(h, u) = o.calls[0].out else { return fault(ALL, "harness", "tp") };
                let f: Vec<&[u8]> = x.strip_prefix(b"V").unwrap_or(b"").split(|c| *c == b':').collect();
                want!(mask, f.len() == 2, "trace-status", "reply {}", show(x));
                want!(mask, num(mask, f[0])? == h as u128 && num(mask, f[1])? == u as u128, "trace-status", "hits {:x} bytes {:x} sent as {}", h, u, show(x));
                Ok(())
            })))
        }
        3 | 4 => {
            let (a, ae, f1) = addr(s, m);
            let (b2, be, f2) = addr(s, m);
            let n = s.num(64);
            let ne = enumx(s, n as u128);
            let (b, r, fits) = match s.below(5) {
                0 => (cat(&[b"QTFrame:", &ne]), FReq::Select(n), true),
                1 => (cat(&[b"QTFrame:pc:", &ae]), FReq::Pc(a), f1),
                2 => (cat(&[b"QTFrame:tdp:", &ne]), FReq::Hit(n as usize), true),
                3 => (cat(&[b"QTFrame:range:", &ae, b":", &be]), FReq::Between(a, b2), f1 && f2),
                _ => (cat(&[b"QTFrame:outside:", &ae, b":", &be]), FReq::Outside(a, b2), f1 && f2),
            };
            if !on { return us(b) }
            if !fits { return Cmd::new("QTFrame-toobig", mask, b, reject(mask, none)) }
            Cmd::new("QTFrame", mask, b, simple(mask, vec![K::TFrame(r)], rep(move |_, o, x| {
                let mask = mask | p(27); // (the target may fail after it reported a frame)
                let Out::Frame(v) = &o.calls[0].out else { return fault(ALL, "harness", "frame") };
                if v.is_empty() { want!(mask, x == b"F-1", "trace-frame", "no frame reported as {}", show(x)); return Ok(()) }
                let mut rest = x;
                for d in v {
                    let (c, n) = match d { FDesc::Num(n) => (b'F', *n as u128), FDesc::Hit(n) => (b'T', *n as u128) };
                    want!(mask, rest.first() == Some(&c), "trace-frame", "{:x?} sent as {}", v, show(x));
                    let end = rest[1..].iter().position(|c| *c == b'T' || *c == b'F').map_or(rest.len(), |i| i + 1);
                    let end = if c == b'F' { rest[1..].iter().position(|c| *c == b'T').map_or(rest.len(), |i| i + 1) } else { end };
                    want!(mask, num(mask, &rest[1..end])? == n, "trace-frame", "{:x?} sent as {}", v, show(x));
                    rest = &rest[end..];
                }
                want!(mask, rest.is_empty(), "trace-frame", "{:x?} sent as {}", v, show(x));
                Ok(())
            })))
        }
        _ => {
            let v = s.chance(1, 5);
            if v {
                let b = if s.bool() { b"qTfV".to_vec() } else { b"qTsV".to_vec() };
                if !on { return us(b) }
                return Cmd::new("qTfV", mask, b, simple(mask, vec![], rep(move |_, _, x| { want!(mask, x.is_empty() || x == b"l", "trace-vars", "reply {}", show(x)); Ok(()) })));
            }
            let (off, len) = (s.num(64), match s.below(3) { 0 => s.num(64), _ => s.below(400) });
            let (oe, le) = (enumx(s, off as u128), enumx(s, len as u128));
            let b = cat(&[b"qTBuffer:", &oe, b",", &le]);
            if !on { return us(b) }
            Cmd::new("qTBuffer", mask, b, simple(mask, vec![K::TBufReq(off, len as usize)], rep(move |_, o, x| {
                let mask = mask | p(27); // (the target may fail after it supplied data)
                let Out::Chunks(c) = &o.calls[0].out else { return fault(ALL, "harness", "tbuf") };
                if c.is_empty() { want!(mask, x == b"l", "trace-buffer", "end of the trace buffer sent as {}", show(x)); }
                else { want!(mask, x == hex(&c.concat()).as_bytes(), "trace-buffer", "data {} sent as {}", hex(&c.concat()), show(x)); }
                Ok(())
            })))
        }
    }
}

fn tstatus(m: &mut Model, o: &Obs, mask: M) -> JR {
    let Some(c0) = o.calls.first() else { return calls_are(o, mask, &[K::TExpStatus]).map(|_| ()) };
    want!(mask, c0.k == K::TExpStatus, "wrong-call", "{:?}", o.calls);
    if let Some(e) = c0.err() { calls_are(o, mask, &[K::TExpStatus])?; return after_err(m, o, mask, &e.clone()) }
    let Out::TStat(v, late) = &c0.out else { return fault(ALL, "harness", "tstat") };
    let mut want: Vec<u8> = vec![];
    let mut info: &[TExpl] = &[];
    if let Some(c) = o.calls.get(1) {
        want!(mask, c.k == K::TExpInfo && o.calls.len() == 2 && !v.is_empty() && !*late, "wrong-call", "{:?}", o.calls);
        match &c.out {
            Out::Err(e @ E::Fatal(_)) => return after_err(m, o, mask, &e.clone()),
            Out::Err(_) => {}
            Out::TExpl(x, e) => { let _ = e; info = x }
            _ => return fault(ALL, "harness", "texpl"),
        }
    } else {
        want!(mask, v.is_empty() || *late, "missing-call", "the explanations were not asked for: {:?}", o.calls);
    }
    let x = one(o, mask)?.to_vec();
    same_state(m, o, mask)?;
    let Some(s) = v.first() else { want!(mask, x.is_empty(), "trace-status", "no status but the reply is {}", show(&x)); return Ok(()) };
    // parse: fields separated by ';'
    let f: Vec<Vec<u8>> = x.split(|c| *c == b';').map(|f| f.to_vec()).collect();
    let mut norm: Vec<String> = vec![];
    for q in &f { norm.push(normalize(q)) }
    let n = |v: usize| format!("{:x}", v);
    let mut w: Vec<String> = vec![];
    match s {
        TStat::Running => w.push("T1".into()),
        _ => w.push("T0".into()),
    }
    match s {
        TStat::Running | TStat::NotRunning => {}
        TStat::NotRun => w.push("tnotrun:0".into()),
        TStat::Stop(None) => w.push("tstop:0".into()),
        TStat::Stop(Some(t)) => w.push(format!("tstop:{}:0", hex(t))),
        TStat::Full => w.push("tfull:0".into()),
        TStat::Disc => w.push("tdisconnected:0".into()),
        TStat::Pass(k) => w.push(format!("tpasscount:{}", n(*k))),
        TStat::Error(t, k) => w.push(format!("terror:{}:{}", hex(t), n(*k))),
        TStat::Unknown => w.push("tunknown:0".into()),
    }
    for i in info {
        w.push(match i {
            TExpl::Frames(k) => format!("tframes:{}", n(*k)), TExpl::Created(k) => format!("tcreated:{}", n(*k)), TExpl::Size(k) => format!("tsize:{}", n(*k)), TExpl::Free(k) => format!("tfree:{}", n(*k)),
            TExpl::Circular(b) => format!("circular:{}", *b as u8), TExpl::Disc(b) => format!("disconn:{}", *b as u8), TExpl::Other(s) => s.clone(),
        });
    }
    want!(mask | p(27), norm == w, "trace-status", "status {:x?} {:x?} sent as {}\nexpected {:?}", s, info, show(&x), w);
    want.clear();
    Ok(())
}
/// canonical form of a status field: the last number without leading zeros
fn normalize(q: &[u8]) -> String {
    let s = String::from_utf8_lossy(q).to_string();
    for k in ["tframes:", "tcreated:", "tsize:", "tfree:", "circular:", "disconn:", "tpasscount:", "tnotrun:", "tfull:", "tdisconnected:", "tunknown:"] {
        if let Some(r) = s.strip_prefix(k) { if let Ok(v) = parse_hex(r.as_bytes()) { return format!("{}{:x}", k, v) } }
    }
    for k in ["terror:", "tstop:"] {
        if let Some(r) = s.strip_prefix(k) {
            let mut parts: Vec<String> = r.split(':').map(|x| x.to_string()).collect();
            if let Some(l) = parts.last_mut() { if let Ok(v) = parse_hex(l.as_bytes()) { *l = format!("{:x}", v) } }
            return format!("{}{}", k, parts.join(":"));
        }
    }
    s
}

// ------------------------------------------------------------------ lldb

fn lldb(s: &mut Src, m: &Model) -> Cmd {
    let mask = p(26);
    let id = match s.below(8) { 0 => s.num(64) as usize, 1 => 24 + s.usize(4), _ => s.usize(26) };
    let e = enumx(s, id as u128);
    let b = cat(&[b"qRegisterInfo", &e]);
    let ovr = m.cfg.on(F::LldbOvr);
    if !m.cfg.on(F::UseLldb) || (!ovr && m.lldb.is_none()) { return Cmd::new("qRegisterInfo-unsupported", mask, b, unsup(mask)) }
    let salt = if ovr { m.st.borrow().b.lldb_salt } else { m.lldb.unwrap() };
    let want = crate::tarch::lreg(salt, id);
    let calls = if ovr { vec![K::Lldb(id)] } else { vec![] };
    Cmd::new("qRegisterInfo", mask, b, simple(mask, calls, rep(move |_, _, x| {
        let Some(r) = want else {
            want!(mask, x.first() == Some(&b'E'), "lldb-end", "past the last register: {}", show(x));
            return Ok(());
        };
        let t = String::from_utf8_lossy(x).to_string();
        want!(mask, t.ends_with(';'), "lldb-format", "reply {}", t);
        let mut got: Vec<(String, String)> = vec![];
        for q in t[..t.len() - 1].split(';') {
            let Some((k, v)) = q.split_once(':') else { return fault(mask, "lldb-format", format!("field {:?} in {}", q, t)) };
            got.push((k.to_string(), v.to_string()));
        }
        let mut w: Vec<(String, String)> = vec![];
        let mut add = |k: &str, v: String| w.push((k.into(), v));
        add("name", r.name.clone());
        if let Some(a) = &r.alt { add("alt-name", a.clone()) }
        add("bitsize", r.bitsize.to_string());
        add("offset", r.offset.to_string());
        add("encoding", crate::tarch::ENC[r.enc as usize].into());
        add("format", crate::tarch::FMT[r.fmt as usize].into());
        add("set", r.set.clone());
        if let Some(g) = r.gcc { add("gcc", g.to_string()) }
        if let Some(g) = r.dwarf { add("dwarf", g.to_string()) }
        if let Some(g) = r.generic { add("generic", crate::tarch::GEN[g as usize].into()) }
        let list = |l: &[usize]| l.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",");
        if let Some(l) = &r.cont { if !l.is_empty() { add("container-regs", list(l)) } }
        if let Some(l) = &r.inval { if !l.is_empty() { add("invalidate-regs", list(l)) } }
        // numbers of the lists without leading zeros; an empty list is the same as none
        let mut g2 = vec![];
        for (k, v) in got {
            if k == "container-regs" || k == "invalidate-regs" {
                if v.is_empty() { continue }
                let mut o = vec![];
                for y in v.split(',') { o.push(format!("{:x}", num(mask, y.as_bytes())?)) }
                g2.push((k, o.join(",")));
            } else if matches!(k.as_str(), "bitsize" | "offset" | "gcc" | "dwarf") {
                match v.parse::<u128>() { Ok(n) => g2.push((k, n.to_string())), Err(_) => return fault(mask | p(31), "lldb-number", format!("{}:{} in {}", k, v, t)) }
            } else { g2.push((k, v)) }
        }
        g2.sort();
        w.sort();
        want!(mask | p(31), g2 == w, "lldb-register", "register {:?}\nsent as {}", r, t);
        Ok(())
    })))
}

// ------------------------------------------------------------------ malformed requests

fn bad(s: &mut Src, m: &Model) -> Cmd {
    let c = m.cfg;
    let mut xs: Vec<(&str, M)> = vec![("m", p(6)), ("m1000", p(6)), ("mzz,4", p(6)), ("m10,zz", p(6)), ("m10,", p(6)), ("M", p(7)), ("M10,4", p(7)), ("Mzz,1:00", p(7)), ("M10,2:0g", p(7)), ("M10,zz:00", p(7)), ("Gzz0q", p(8)), ("H", p(16)), ("Hx1", p(16)), ("Hgzz", p(16)), ("T", p(16)), ("Tzz", p(16)), ("Hg", p(16)), ("vKill", p(15)), ("vKill;zz", p(15)), ("vKill;0", p(15)), ("m100000000000000000,4", p(6)), ("M100000000000000000,1:00", p(7))];
    if c.on(F::XUp) { xs.extend([("X10,4", p(7)), ("Xzz,1:a", p(7)), ("X10,1:}", p(7)), ("X", p(7))]) }
    if c.on(F::Sra) { xs.extend([("p", p(9)), ("pzz", p(9)), ("P", p(9)), ("P1", p(9)), ("Pzz=00", p(9)), ("P1=0g", p(9))]) }
    if c.on(F::Bp) { xs.extend([("Z0,10", p(10)), ("Z0", p(10)), ("z", p(10)), ("Z0,zz,1", p(10)), ("Z0,10,zz", p(10)), ("Zzz,10,1", p(10)), ("z100,10,1", p(10))]) }
    if c.on(F::Ext) { xs.extend([("QDisableRandomization:2", p(21)), ("QDisableRandomization", p(21)), ("QStartupWithShell:", p(21)), ("QSetWorkingDir:zz", p(21)), ("QEnvironmentUnset:zz", p(21)), ("vRun;zz", p(21)), ("vAttach;", p(21)), ("vAttach;0", p(21)), ("vRun;61;zz", p(21))]) }
    if c.on(F::HostIo) { xs.extend([("vFile:open:61,0", p(20)), ("vFile:open:zz,0,0", p(20)), ("vFile:open:61,4,0", p(20)), ("vFile:open:61,0,ffffffff", p(20)), ("vFile:close:", p(20)), ("vFile:close:zz", p(20)), ("vFile:pread:1,2", p(20)), ("vFile:pwrite:1,2", p(20)), ("vFile:pwrite:1,2,}", p(20)), ("vFile:setfs:zz", p(20)), ("vFile:unlink:zz", p(20)), ("vFile:readlink:zz", p(20)), ("vFile:fstat:", p(20))]) }
    if c.on(F::Catch) { xs.extend([("QCatchSyscalls:2", p(23)), ("QCatchSyscalls", p(23)), ("QCatchSyscalls:1;zz", p(23))]) }
    if c.on(F::Trace) { xs.extend([("QTDP:1:10:Q:0:0", p(24)), ("QTDP:1", p(24)), ("QTDP:zz:10:E:0:0", p(24)), ("QTDP:-1:10", p(24)), ("QTBuffer:circular:2", p(24)), ("QTBuffer:size:zz", p(24)), ("QTBuffer:what:1", p(24)), ("QTFrame:zz", p(25)), ("QTFrame:range:1", p(25)), ("qTP:1", p(25)), ("qTP:zz:1", p(25))]) }
    if c.src() { xs.extend([("QTDPsrc:1:10:what:0:0:00", p(24)), ("QTDPsrc:1:10:at:0:100000000:00", p(24)), ("QTDPsrc:1:10:at", p(24))]) }
    if c.on(F::Monitor) { xs.extend([("qRcmd,6", p(22)), ("qRcmdx", p(22))]); xs.retain(|x| x.0 != "qRcmd,6") }
    if c.multi() && c.on(F::ThrExtra) { xs.extend([("qThreadExtraInfo", p(34)), ("qThreadExtraInfo,zz", p(34)), ("qThreadExtraInfo,-1", p(34))]) }
    let (b, mask) = *s.pick(&xs);
    // a kind that is not supported may be told so before its arguments are looked at
    let mut b = b.as_bytes().to_vec();
    // any byte that is no digit will do, in either place
    if let Some(i) = b.windows(2).position(|w| w == b"zz") {
        let x = *s.pick(b"zzgG@`/yY!~ \x7f\x80\xff\0");
        match s.below(4) { 0 => { b[i] = b'0'; b[i + 1] = x } 1 => { b[i] = x; b[i + 1] = b'0' } _ => { b[i] = x; b[i + 1] = x } }
    }
    Cmd::new("malformed", mask, b, reject(mask, none))
}
