//! P39: named values, conversions, owned copies, text macros and builder options mean what they
//! are documented to mean.

use crate::engine::*;
use crate::mock::*;
#[cfg(feature = "std")]
use crate::rsp::show;
use gdbstub::common::Signal;
use gdbstub::stub::{GdbStub, GdbStubBuilderError};
use gdbstub::target::ext::host_io::*;
#[cfg(feature = "std")]
use gdbstub::target::ext::tracepoints::*;
#[cfg(feature = "std")]
use gdbstub::target::TargetError;
#[cfg(feature = "std")]
use std::io::ErrorKind;

/// include/gdb/signals.def: number, name
fn signals() -> Vec<(u8, String, Signal)> {
    let mut v: Vec<(u8, String, Signal)> = Vec::new();
    macro_rules! named { ($($n:literal $s:ident),* $(,)?) => { $(v.push(($n, stringify!($s).into(), Signal::$s));)* } }
    named!(0 SIGZERO, 1 SIGHUP, 2 SIGINT, 3 SIGQUIT, 4 SIGILL, 5 SIGTRAP, 6 SIGABRT, 7 SIGEMT, 8 SIGFPE, 9 SIGKILL, 10 SIGBUS,
        11 SIGSEGV, 12 SIGSYS, 13 SIGPIPE, 14 SIGALRM, 15 SIGTERM, 16 SIGURG, 17 SIGSTOP, 18 SIGTSTP, 19 SIGCONT, 20 SIGCHLD,
        21 SIGTTIN, 22 SIGTTOU, 23 SIGIO, 24 SIGXCPU, 25 SIGXFSZ, 26 SIGVTALRM, 27 SIGPROF, 28 SIGWINCH, 29 SIGLOST, 30 SIGUSR1,
        31 SIGUSR2, 32 SIGPWR, 33 SIGPOLL, 34 SIGWIND, 35 SIGPHONE, 36 SIGWAITING, 37 SIGLWP, 38 SIGDANGER, 39 SIGGRANT,
        40 SIGRETRACT, 41 SIGMSG, 42 SIGSOUND, 43 SIGSAK, 44 SIGPRIO, 76 SIGCANCEL, 77 SIG32, 142 SIGINFO, 143 UNKNOWN,
        144 INTERNAL_DEFAULT, 145 EXC_BAD_ACCESS, 146 EXC_BAD_INSTRUCTION, 147 EXC_ARITHMETIC, 148 EXC_EMULATION,
        149 EXC_SOFTWARE, 150 EXC_BREAKPOINT, 151 SIGLIBRT);
    // the realtime signals are numbered in two runs: 33..=63 from 45, 64..=127 from 78
    let rt = [SIGRT1.as_slice(), SIGRT2.as_slice()].concat();
    for (i, s) in rt.into_iter().enumerate() {
        let n = 33 + i as u8;
        v.push((if n <= 63 { 45 + (n - 33) } else { 78 + (n - 64) }, format!("SIG{}", n), s));
    }
    v.sort_by_key(|x| x.0);
    v
}
macro_rules! sigs { ($($s:ident)*) => { [$(Signal::$s),*] } }
const SIGRT1: [Signal; 31] = sigs!(SIG33 SIG34 SIG35 SIG36 SIG37 SIG38 SIG39 SIG40 SIG41 SIG42 SIG43 SIG44 SIG45 SIG46 SIG47
    SIG48 SIG49 SIG50 SIG51 SIG52 SIG53 SIG54 SIG55 SIG56 SIG57 SIG58 SIG59 SIG60 SIG61 SIG62 SIG63);
const SIGRT2: [Signal; 64] = sigs!(SIG64 SIG65 SIG66 SIG67 SIG68 SIG69 SIG70 SIG71 SIG72 SIG73 SIG74 SIG75 SIG76 SIG77 SIG78
    SIG79 SIG80 SIG81 SIG82 SIG83 SIG84 SIG85 SIG86 SIG87 SIG88 SIG89 SIG90 SIG91 SIG92 SIG93 SIG94 SIG95 SIG96 SIG97 SIG98
    SIG99 SIG100 SIG101 SIG102 SIG103 SIG104 SIG105 SIG106 SIG107 SIG108 SIG109 SIG110 SIG111 SIG112 SIG113 SIG114 SIG115
    SIG116 SIG117 SIG118 SIG119 SIG120 SIG121 SIG122 SIG123 SIG124 SIG125 SIG126 SIG127);

fn signal(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.below(256) as u8;
    let all = signals();
    check!(all.len() == 152 && all.iter().enumerate().all(|(i, x)| i == x.0 as usize), "harness", "signal table is not 0..=151");
    let text = format!("{}", Signal(n));
    c.note(|| format!("signal {} prints as {:?}", n, text));
    match all.get(n as usize) {
        Some((_, name, k)) => {
            check!(k.0 == n && *k == Signal(n), "signal-number", "Signal::{} has number {} instead of {}", name, k.0, n);
            check!(text == *name || text.starts_with(&format!("{} ", name)), "signal-text", "signal {} ({}) prints as {:?}", n, name, text);
        }
        None => check!(text.contains("custom"), "signal-text", "signal {} prints as {:?}", n, text),
    }
    c.nontrivial(mix(1, n as u64));
    Ok(())
}

macro_rules! flags { ($t:ident $($n:literal $s:ident),* $(,)?) => { vec![$(($n as u32, stringify!($s), $t::$s)),*] } }
fn open_bits(s: &mut Src, c: &mut Ctx) -> R {
    let fl = flags!(HostIoOpenFlags 0 O_RDONLY, 1 O_WRONLY, 2 O_RDWR, 8 O_APPEND, 0x200 O_CREAT, 0x400 O_TRUNC, 0x800 O_EXCL,
        0x1000_0000 O_NONBLOCK, 0x2000_0000 O_DONT_FOLLOW_SYMLINKS, 0x4000_0000 O_CLOSE_ON_EXEC, 0x8000_0000u32 O_INVALID);
    let mo = flags!(HostIoOpenMode 0o100000 S_IFREG, 0o40000 S_IFDIR, 0o400 S_IRUSR, 0o200 S_IWUSR, 0o100 S_IXUSR, 0o40 S_IRGRP, 0o20 S_IWGRP,
        0o10 S_IXGRP, 4 S_IROTH, 2 S_IWOTH, 1 S_IXOTH);
    let (a, b) = (s.raw(), s.raw());
    macro_rules! go { ($v:expr, $bits:expr, $t:ident) => {{
        let (mut want, mut got) = (0u32, $t::empty());
        for (i, (n, name, k)) in $v.iter().enumerate() {
            check!(k.bits() == *n, "flag-bits", "{}::{} is {:#x} instead of {:#x}", stringify!($t), name, k.bits(), n);
            if $bits >> i & 1 == 1 { want |= n; got |= *k }
        }
        check!(got.bits() == want, "flag-union", "{:?} is {:#x} instead of {:#x}", got, got.bits(), want);
        for (i, (_, name, k)) in $v.iter().enumerate() {
            if $bits >> i & 1 == 1 { check!(got.contains(*k), "flag-contains", "{:#x} does not contain {}", want, name) }
        }
        check!($t::from_bits(want) == Some(got), "flag-parse", "{:#x} is not made of {} bits", want, stringify!($t));
        c.nontrivial(mix(2, want as u64));
    }} }
    go!(fl, a, HostIoOpenFlags);
    go!(mo, b, HostIoOpenMode);
    Ok(())
}

#[cfg(feature = "std")]
fn errno_no(e: HostIoErrno) -> u32 { e as u32 }
#[cfg(feature = "std")]
const KINDS: [ErrorKind; 19] = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero,
    ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other];
#[cfg(feature = "std")]
fn errnos(s: &mut Src, c: &mut Ctx) -> R {
    use HostIoErrno::*;
    for (n, name, e) in [(1, "EPERM", EPERM), (2, "ENOENT", ENOENT), (4, "EINTR", EINTR), (9, "EBADF", EBADF), (13, "EACCES", EACCES), (14, "EFAULT", EFAULT),
        (16, "EBUSY", EBUSY), (17, "EEXIST", EEXIST), (19, "ENODEV", ENODEV), (20, "ENOTDIR", ENOTDIR), (21, "EISDIR", EISDIR), (22, "EINVAL", EINVAL),
        (23, "ENFILE", ENFILE), (24, "EMFILE", EMFILE), (27, "EFBIG", EFBIG), (28, "ENOSPC", ENOSPC), (29, "ESPIPE", ESPIPE), (30, "EROFS", EROFS),
        (91, "ENAMETOOLONG", ENAMETOOLONG), (9999, "EUNKNOWN", EUNKNOWN)] {
        let got = errno_no(e);
        check!(got == n, "errno-number", "{} is {} instead of {}", name, got, n);
    }
    // an error of the standard library: its kind decides (a mapping may be more specific than EUNKNOWN
    // only where the kind says so)
    let (err, kind, what) = match s.below(3) {
        0 => { let k = KINDS[s.below(19) as usize]; (std::io::Error::from(k), k, format!("{:?}", k)) }
        1 => { let k = KINDS[s.below(19) as usize]; (std::io::Error::new(k, "custom"), k, format!("{:?} custom", k)) }
        _ => { let n = s.below(134) as i32; let e = std::io::Error::from_raw_os_error(n); let k = e.kind(); (e, k, format!("os error {} ({:?})", n, k)) }
    };
    let raw = err.raw_os_error();
    let ok: &[u32] = match kind {
        ErrorKind::PermissionDenied => &[1, 13],
        ErrorKind::NotFound => &[2],
        ErrorKind::Interrupted => &[4],
        ErrorKind::AlreadyExists => &[17],
        ErrorKind::InvalidInput => &[22],
        _ => &[9999],
    };
    c.note(|| what.clone());
    match HostIoError::<u32>::from(err) {
        HostIoError::Errno(e) => {
            let n = errno_no(e);
            // keeping the operating system's own number is as good
            check!(ok.contains(&n) || raw == Some(n as i32), "io-errno", "{} becomes errno {}", what, n);
        }
        HostIoError::Fatal(_) => return fail("io-errno", format!("{} becomes a fatal error", what)),
    }
    let n = s.below(134) as i32;
    match TargetError::<u32>::from(std::io::Error::from_raw_os_error(n)) {
        TargetError::Io(e) => check!(e.raw_os_error() == Some(n), "target-io", "os error {} became {:?}", n, e),
        _ => return fail("target-io", format!("os error {} did not become TargetError::Io", n)),
    }
    check!(matches!(TargetError::<u32>::from(()), TargetError::NonFatal), "target-unit", "() did not become TargetError::NonFatal");
    c.nontrivial(mix(3, hash_bytes(what.as_bytes()) ^ n as u64));
    Ok(())
}

#[cfg(feature = "std")]
fn owned(s: &mut Src, c: &mut Ctx) -> R {
    let mut bytes = s.bytes(40);
    let (num, addr) = (s.num(64) as usize, s.num(64));
    let (start, slen) = (s.num(32) as u32, s.num(32) as u32);
    let kind = [TracepointSourceType::At, TracepointSourceType::Cond, TracepointSourceType::Cmd][s.below(3) as usize];
    let which = s.below(4);
    let (len, reg) = (s.num(64), s.bool().then(|| s.num(64)));
    c.note(|| format!("copy of {:?}", (which, num, addr, start, slen, kind, len, reg, show(&bytes))));
    let before = bytes.clone();
    let (a, b) = match which {
        0 => { let x = SourceTracepoint { number: Tracepoint(num), addr, kind, start, slen, bytes: (&mut bytes[..]).into() }; let y = x.get_owned(); (fmt_src(&x), { drop(x); bytes.fill(0x5a); fmt_src(&y) }) }
        1 => { let x = TracepointAction::<u64>::Registers { mask: (&mut bytes[..]).into() }; let y = x.get_owned(); (fmt_act(&x), { drop(x); bytes.fill(0x5a); fmt_act(&y) }) }
        2 => { let x = TracepointAction::<u64>::Expression { expr: (&mut bytes[..]).into() }; let y = x.get_owned(); (fmt_act(&x), { drop(x); bytes.fill(0x5a); fmt_act(&y) }) }
        _ => { let x = TracepointAction::<u64>::Memory { basereg: reg, offset: addr, length: len }; let y = x.get_owned(); (fmt_act(&x), fmt_act(&y)) }
    };
    let want = match which {
        0 => format!("{} {} {:?} {} {} {}", num, addr, kind, start, slen, show(&before)),
        1 => format!("R {}", show(&before)),
        2 => format!("X {}", show(&before)),
        _ => format!("M {:?} {} {}", reg, addr, len),
    };
    check!(a == want && b == want, "owned", "the owned copy of {} (original {}) is {}", want, a, b);
    c.nontrivial(mix(4, hash_bytes(want.as_bytes())));
    Ok(())
}
#[cfg(feature = "std")]
fn fmt_src(x: &SourceTracepoint<'_, u64>) -> String {
    format!("{} {} {:?} {} {} {}", x.number.0, x.addr, x.kind, x.start, x.slen, show(&x.bytes))
}
#[cfg(feature = "std")]
fn fmt_act(x: &TracepointAction<'_, u64>) -> String {
    match x {
        TracepointAction::Registers { mask } => format!("R {}", show(mask)),
        TracepointAction::Expression { expr } => format!("X {}", show(expr)),
        TracepointAction::Memory { basereg, offset, length } => format!("M {:?} {} {}", basereg, offset, length),
    }
}

fn builder(s: &mut Src, c: &mut Ctx) -> R {
    let cap = s.usize(300);
    let size = match s.below(4) { 0 => None, 1 => Some(cap), 2 => Some((cap + 1).saturating_sub(s.usize(3))), _ => Some(s.usize(300)) };
    let own = s.below(3) == 0;
    let st = new_state(Cfg::all(), Beh { hi: 100, threads: vec![1], pid: 1, ..Default::default() }, 64);
    let cs: Cs = Default::default();
    let mut buf = vec![0u8; cap];
    let mut b = gdbstub::stub::GdbStubBuilder::<MockTarget<u64>, MockConn>::new(MockConn(cs.clone()));
    let swap = s.bool();
    if swap { if let Some(n) = size { b = b.packet_buffer_size(n) } }
    let mut b = if own { b } else { b.with_packet_buffer(&mut buf) };
    if !swap { if let Some(n) = size { b = b.packet_buffer_size(n) } }
    c.note(|| format!("buffer {} size {:?}", if own { "owned".into() } else { cap.to_string() }, size));
    let bad = !own && size.map_or(false, |n| n > cap);
    let want = if own { size.unwrap_or(4096) } else { size.unwrap_or(cap) };
    let stub: GdbStub<'_, MockTarget<u64>, MockConn> = match b.build() {
        Err(GdbStubBuilderError::PacketBufSizeMismatch) => { check!(bad, "builder", "buffer of {} with size {:?} is refused", cap, size); c.nontrivial(mix(6, (cap as u64) << 20 | size.unwrap_or(9999) as u64)); return Ok(()) }
        Err(GdbStubBuilderError::MissingPacketBuffer) if own && !STD => { c.nontrivial(mix(7, size.unwrap_or(9999) as u64)); return Ok(()) }
        Err(e) => return fail("builder", format!("{:?}", e)),
        Ok(x) => { check!(!own || STD, "builder", "a stub without a packet buffer was built without an allocator"); check!(!bad, "builder", "buffer of {} with size {:?} is accepted", cap, size); x }
    };
    // the size the client is told is the one that was asked for, unless the question itself made it grow
    if s.chance(1, 3) && (own || want >= 14) {
        let mut t = MockTarget::<u64>::new(st.clone());
        let Ok(mut sm) = stub.run_state_machine(&mut t) else { return fail("start", "the session does not start") };
        for b in *b"$qSupported#37" {
            use gdbstub::stub::state_machine::GdbStubStateMachine::*;
            sm = match sm { Idle(i) => match i.incoming_data(&mut t, b) { Ok(x) => x, Err(_) => return fail("packet-size", "the query for the packet size ended the session") }, o => o };
        }
        let toks = crate::rsp::tokenize(&cs.borrow().out).map_err(|e| fail::<()>("packet-size", e).unwrap_err())?;
        let out = toks.iter().find_map(|t| match t { crate::rsp::Tok::Pkt { raw, .. } => crate::rsp::rle_expand(raw).ok(), _ => None }).unwrap_or_default();
        let out = String::from_utf8_lossy(&out);
        let n = out.split("PacketSize=").nth(1).and_then(|x| usize::from_str_radix(x.split(';').next().unwrap_or(""), 16).ok());
        let Some(n) = n else { return fail("packet-size", format!("no packet size in {:?}", out)) };
        check!(n == want || want < 14 && n <= 14, "packet-size", "a {} buffer of {} with size {:?} reports a packet size of {}", if own { "stub-allocated" } else { "supplied" }, cap, size, n);
        c.nontrivial(mix(8, (own as u64) << 40 | want as u64));
        return Ok(())
    }
    // a packet fits exactly when the whole of it does
    let mut t = MockTarget::<u64>::new(st.clone());
    let len = (want + 1).saturating_sub(s.usize(3)).max(4);
    let body = vec![b'~'; len - 4];
    let pkt = [b"$".as_slice(), &body, format!("#{:02x}", body.iter().fold(0u8, |a, x| a.wrapping_add(*x))).as_bytes()].concat();
    let mut sm = match stub.run_state_machine(&mut t) { Ok(x) => x, Err(_) => return fail("start", "the session does not start") };
    let mut dead = false;
    for b in pkt {
        use gdbstub::stub::state_machine::GdbStubStateMachine::*;
        sm = match sm { Idle(i) => match i.incoming_data(&mut t, b) { Ok(x) => x, Err(_) => { dead = true; break } }, o => o };
    }
    let fits = len <= want || own;
    check!(dead != fits, "capacity", "a packet of {} bytes in a buffer of {} ({}): {}", len, want, if own { "owned" } else { "supplied" }, if dead { "refused" } else { "accepted" });
    c.nontrivial(mix(6, (cap as u64) << 40 | (size.unwrap_or(9999) as u64) << 20 | len as u64));
    Ok(())
}

/// an error that ends a session tells which side it came from, hands out exactly that side's error
/// and shows it to a human
fn errors(s: &mut Src, c: &mut Ctx) -> R {
    use gdbstub::stub::state_machine::GdbStubStateMachine::*;
    let which = s.below(3);
    let code = match s.below(3) { 0 => s.below(10), 1 => s.raw() >> 40, _ => s.num(31) } as u32;
    c.note(|| format!("{} with error {}", ["a failing connection", "a failing target", "a malformed packet"][which as usize], code));
    let beh = Beh { hi: 100, threads: vec![1], pid: 1, err_at: (which == 1).then_some((1, E::Fatal(code))), ..Default::default() };
    let st = new_state(Cfg::all(), beh, 64);
    let cs: Cs = Default::default();
    let mut buf = vec![0u8; 200];
    let mut t = MockTarget::<u64>::new(st.clone());
    // twice, since asking for the error consumes it
    let mut run = |wrong: bool| -> R {
        *cs.borrow_mut() = Default::default();
        st.borrow_mut().n = 0;
        let k = s.below(8);
        let mut err = None;
        let at_start = which == 0 && k == 0;
        if which == 0 { cs.borrow_mut().fail_at = Some((k, code, false)) }
        match GdbStub::<'_, MockTarget<u64>, MockConn>::builder(MockConn(cs.clone())).with_packet_buffer(&mut buf).build() {
            Err(e) => return fail("builder", format!("{:?}", e)),
            Ok(x) => match x.run_state_machine(&mut t) {
                Err(e) => err = Some(e),
                Ok(mut sm) => for b in if which == 2 { b"$m1,zz#be".as_slice() } else { b"$m1,1#fb" } {
                    sm = match sm { Idle(i) => match i.incoming_data(&mut t, *b) { Ok(x) => x, Err(e) => { err = Some(e); break } }, o => o };
                },
            },
        }
        let Some(e) = err else { return if which == 0 && k >= cs.borrow().ops { Ok(()) } else { fail("error", format!("operation {}: the session does not end", k)) } };
        let text = format!("{}", e);
        check!(e.is_connection_error() == (which == 0) && e.is_target_error() == (which == 1), "error-side", "{:?} says connection {} target {}", e, e.is_connection_error(), e.is_target_error());
        if wrong {
            let none = if which == 0 { e.into_target_error().is_none() } else { e.into_connection_error().is_none() };
            check!(none, "error-other-side", "the error of the other side is handed out");
            return Ok(())
        }
        match which {
            0 => {
                let shown = format!("{}", CErr(code));
                check!(text.contains(&shown), "error-text", "{:?} does not show {:?}", text, shown);
                let x = e.into_connection_error();
                let got = x.as_ref().map(|(c, k)| (c.0, format!("{:?}", k)));
                check!(got == Some((code, if at_start { "Init".into() } else { "Write".to_string() })), "error-value", "operation {}: {:?} instead of {}", k, got, code);
            }
            1 => {
                let shown = format!("{}", TErr(code));
                check!(text.contains(&shown), "error-text", "{:?} does not show {:?}", text, shown);
                let got = e.into_target_error().map(|t| t.0);
                check!(got == Some(code), "error-value", "{:?} instead of {}", got, code);
            }
            _ => { check!(e.into_target_error().is_none(), "error-value", "a parse error hands out a target error"); }
        }
        Ok(())
    };
    run(false)?;
    run(true)?;
    for e in [GdbStubBuilderError::MissingPacketBuffer, GdbStubBuilderError::PacketBufSizeMismatch] { check!(!format!("{}", e).is_empty(), "error-text", "{:?} has no text", e) }
    c.nontrivial(mix(7, (which << 32) | code as u64));
    Ok(())
}

pub fn p39(s: &mut Src, c: &mut Ctx) -> R {
    let (name, f): (&'static str, fn(&mut Src, &mut Ctx) -> R) = match s.idx % 6 {
        0 => ("signal", signal),
        1 => ("open bits", open_bits),
        #[cfg(feature = "std")]
        2 => ("error numbers", errnos),
        #[cfg(feature = "std")]
        3 => ("owned copies", owned),
        4 => ("errors", errors),
        _ => ("builder", builder),
    };
    c.label(name);
    c.work += 1;
    match catch(|| f(s, c)) { Ok(r) => r, Err(p) => fail("panic", format!("{}: {}", name, p)) }
}
