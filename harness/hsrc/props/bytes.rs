//! P01 (framing) and P02 (no byte stream can break the stub).

use crate::engine::*;
use crate::hist::*;
use crate::mock::*;
use crate::model::*;
use crate::rsp::*;
use crate::sess::*;
use crate::tarch::UInt;

// ---------------------------------------------------------------------------------------- P01

enum Exp {
    /// executed: (call, reply)
    Exec(Option<K>, Vec<u8>),
    CtrlC,
    Nothing,
    /// the session must end with an error that is neither target nor connection error
    Die { overflow: bool },
}

pub fn p01(s: &mut Src, c: &mut Ctx) -> R {
    let mut u = Setup::gen(s, |s, c| { c.set(F::Guard, true); if s.chance(7, 8) { c.set(F::Monitor, true); c.set(F::XUp, true) } });
    u.beh.nf = 0;
    u.beh.fatal = 0;
    u.beh.mon = 3;
    let (st, cs) = u.state();
    let mut stub = mock_session(u.bits, st.clone(), cs.clone(), &u.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    check!(stub.kind() == Kind::Idle, "start", "session start: {:?}", stub.kind());
    c.note(|| u.show());
    let cap = u.buf.cap();
    let fixed = u.buf.fixed();
    let mut full = cap;
    let t = if u.cfg.multi() { Some(1) } else { None };
    // the thread memory requests act on before anything was selected is not specified
    let any_thread = |k: &K| match k { K::WriteMem(_, a, d) => K::WriteMem(t, *a, d.clone()), k => k.clone() };
    let n = 1 + s.below(10);
    let mut fp = 0;
    let mut big = false;
    for _ in 0..n {
        // a packet body with what its execution looks like
        let packet = |s: &mut Src| -> (Vec<u8>, Option<K>, Vec<u8>) {
            // the size of the whole packet
            let total = match s.below(8) {
                0 | 1 => (full + s.usize(4)).saturating_sub(2),
                2 if !fixed => full + s.usize(200),
                3 => s.usize(full + 1),
                _ => 4 + s.usize(60.min(full)),
            };
            let body = total.saturating_sub(4);
            match s.below(3) {
                0 if u.cfg.on(F::Monitor) => {
                    let k = body.saturating_sub(6) / 2;
                    let cmd = s.bytes_n(k);
                    let mut b = b"qRcmd,".to_vec();
                    b.extend(ehex(s, &cmd));
                    (b, Some(K::Monitor(cmd)), b"OK".to_vec())
                }
                1 if u.cfg.on(F::XUp) => {
                    // fill the rest of the packet with raw data
                    let a = s.num(u.bits);
                    let mut room = body;
                    let mut data: Vec<u8>;
                    let mut b;
                    loop {
                        data = s.bytes_n(room);
                        loop {
                            let mut e = vec![];
                            for x in &data { if matches!(x, b'#' | b'$' | b'}') { e.push(b'}'); e.push(x ^ 0x20) } else { e.push(*x) } }
                            b = format!("X{:x},{:x}:", a, data.len()).into_bytes();
                            b.extend(e);
                            if b.len() <= body || data.is_empty() { break }
                            data.pop();
                        }
                        if b.len() <= body.max(8) || room == 0 { break }
                        room /= 2;
                    }
                    (b, Some(K::WriteMem(t, a as u128, data)), b"OK".to_vec())
                }
                _ => {
                    // not a request: any bytes except '#', including '$', '+', '-', 0x03
                    let mut b = s.bytes_n(body.saturating_sub(2));
                    for x in b.iter_mut() { if *x == b'#' { *x = b'$' } }
                    // the bytes that mean something between packets mean nothing at the start of one
                    let start = *s.pick(&[*b"yy", *b"yy", *b"$$", *b"$y", *b"y$", *b"++", *b"-y", *b"\x03y"]);
                    (if body == 0 { vec![] } else { let mut v = start.to_vec(); v.truncate(body); v.extend(b); v }, None, vec![])
                }
            }
        };
        let (bytes, exp): (Vec<u8>, Exp) = match s.weighted(&[12, 3, 1, 2, 1, 1, 1]) {
            0 => {
                let (b, k, r) = packet(s);
                let f = frame_case(s, &b);
                big |= f.len() + 2 >= full;
                if fixed && f.len() > cap { (f, Exp::Die { overflow: true }) } else { full = full.max(f.len()); (f, Exp::Exec(k, r)) }
            }
            1 => (vec![b'+'; 1 + s.usize(5)], Exp::Nothing),
            2 => (vec![3], Exp::CtrlC),
            3 => {
                // a wrong checksum
                let (b, _, _) = packet(s);
                let mut f = frame(&b);
                let l = f.len();
                if fixed && l > cap { (f, Exp::Die { overflow: true }) } else {
                    let delta = match s.below(4) { 0 => 1, 1 => 0x10, 2 => 0xff, _ => 1 + s.below(255) as u8 };
                    let cs = csum(&b).wrapping_add(delta);
                    f.truncate(l - 2);
                    f.extend(format!("{:02x}", cs).bytes());
                    (f, Exp::Die { overflow: false })
                }
            }
            4 => {
                // a checksum that is not hex
                let (b, _, _) = packet(s);
                let mut f = frame(&b);
                let l = f.len();
                if fixed && l > cap { (f, Exp::Die { overflow: true }) } else {
                    let w = l - 1 - s.usize(2);
                    f[w] = *s.pick(b"gGzZ/:@`# $+-\x00\xff\x10");
                    (f, Exp::Die { overflow: false })
                }
            }
            5 => (vec![b'-'], Exp::Die { overflow: false }),
            _ => {
                let mut x = s.raw() as u8;
                if matches!(x, b'+' | b'-' | b'$' | 3) { x = b'#' }
                (vec![x], Exp::Die { overflow: false })
            }
        };
        fp = mix(fp, hash_bytes(&bytes));
        c.note(|| show(&bytes));
        c.work += bytes.len() as u64;
        let (a, b) = (cs.borrow().out.len(), st.borrow().log.len());
        for (i, x) in bytes.iter().enumerate() {
            stub.feed(*x);
            let last = i + 1 == bytes.len();
            if !last {
                let quiet = cs.borrow().out.len() == a && st.borrow().log.len() == b;
                check!(quiet, "early", "something was executed or sent before {} was complete (at byte {})", show(&bytes), i);
                match stub.kind() {
                    Kind::Idle => {}
                    // an overflow may be noticed before the packet ends, but not before the buffer is full
                    Kind::Dead(_) if matches!(exp, Exp::Die { overflow: true }) && i >= cap.saturating_sub(1) => break,
                    k => return fail("early-state", format!("state {:?} after byte {} of {} (buffer {})", k, i, show(&bytes), cap)),
                }
            }
        }
        let out = cs.borrow().out[a..].to_vec();
        let calls: Vec<K> = st.borrow().log[b..].iter().map(|x| any_thread(&x.k)).collect();
        let k = stub.kind();
        match exp {
            Exp::Nothing => check!(k == Kind::Idle && out.is_empty() && calls.is_empty(), "plus", "{} led to {:?}, output {}, calls {:?}", show(&bytes), k, show(&out), calls),
            Exp::CtrlC => {
                check!(k == Kind::CtrlC && out.is_empty() && calls.is_empty(), "ctrl-c", "Ctrl-C led to {:?}, output {}, calls {:?}", k, show(&out), calls);
                stub.interrupt(None);
                check!(stub.kind() == Kind::Idle, "ctrl-c", "declined interrupt led to {:?}", stub.kind());
            }
            Exp::Die { overflow } => {
                check!(calls.is_empty(), "executed", "{} was executed: {:?}", show(&bytes), calls);
                match k {
                    Kind::Dead(e) => {
                        check!(!e.is_target && !e.is_conn, "class", "{} ended the session with {:?}", show(&bytes), e);
                        check!(e.overflow() == overflow, "overflow-class", "{} (buffer {}) ended the session with {:?}", show(&bytes), cap, e);
                        check!(out.is_empty(), "answered", "{} was answered with {}", show(&bytes), show(&out));
                    }
                    k => return fail("accepted", format!("{} (buffer {}) was accepted: {:?}, output {}", show(&bytes), cap, k, show(&out))),
                }
                c.label(if overflow { "overflow" } else { "rejected bytes" });
                break;
            }
            Exp::Exec(want, reply) => {
                check!(k == Kind::Idle, "state", "{} (buffer {}, {}) led to {:?}", show(&bytes), cap, if fixed { "fixed" } else { "growable" }, k);
                let wc: Vec<K> = want.into_iter().map(|k| any_thread(&k)).collect();
                check!(calls == wc, "exec", "{} led to the calls {:?}\nexpected {:?}", show(&bytes), calls, wc);
                let toks = tokenize(&out).map_err(|e| Fail { sig: "malformed".into(), msg: e })?;
                let ok = toks.len() == 2 && toks[0] == Tok::Ack && matches!(&toks[1], Tok::Pkt { raw, .. } if *raw == reply);
                check!(ok, "reply", "{} answered with {}", show(&bytes), show(&out));
            }
        }
    }
    if big { c.label("packet within two bytes of the capacity") }
    c.nontrivial(fp);
    Ok(())
}

// ---------------------------------------------------------------------------------------- P02

fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    const NUMS: &[&[u8]] = &[b"ffffffffffffffff", b"10000000000000000", b"0", b"-1", b"80000000", b"ffffffff", b"7fffffffffffffff", b"", b"00000000000000000000000000000000001", b"fffffffffffffffe", b"p0.0", b"p-1.-1", b"p1", b"p", b"zz", b"8000000000000000", b"100000000"];
    match s.below(10) {
        0 => { let n = s.usize(b.len() + 1); b.truncate(n) }
        1 => if !b.is_empty() { let i = s.usize(b.len()); b.remove(i); },
        2 => { let i = s.usize(b.len() + 1); let x = s.raw() as u8; b.insert(i, x) }
        3 => { let i = s.usize(b.len() + 1); let x = *s.pick(b",;:=-.+*#$}|%?0fFpxX \x00\x03\xff"); b.insert(i, x) }
        4 => if !b.is_empty() { let i = s.usize(b.len()); b[i] = s.raw() as u8 },
        5 | 6 => {
            // replace a number
            let isn = |c: u8| c.is_ascii_hexdigit();
            let starts: Vec<usize> = (0..b.len()).filter(|i| isn(b[*i]) && (*i == 0 || !isn(b[*i - 1]))).collect();
            if !starts.is_empty() {
                let i = starts[s.usize(starts.len())];
                let mut j = i;
                while j < b.len() && isn(b[j]) { j += 1 }
                let r = *s.pick(NUMS);
                b.splice(i..j, r.iter().copied());
            }
        }
        7 => { // repeat a part
            let i = s.usize(b.len() + 1);
            let j = (i + s.usize(12)).min(b.len());
            let part = b[i..j].to_vec();
            for _ in 0..1 + s.usize(4) { b.splice(i..i, part.iter().copied()); }
        }
        8 => { // a separator lost or doubled
            if let Some(i) = b.iter().position(|c| matches!(c, b',' | b';' | b':' | b'=' | b'.')) { if s.bool() { b.remove(i); } else { let c = b[i]; b.insert(i, c) } }
        }
        _ => { let e = s.bytes(30); b.extend(e) }
    }
}
const PREFIXES: &[&str] = &["?", "!", "c", "C", "s", "S", "D", "g", "G", "H", "k", "m", "M", "p", "P", "R", "T", "X", "z0", "Z0", "Z1", "z2", "Z3", "Z4", "bc", "bs", "vAttach;", "vCont", "vCont?", "vCont;", "vFile:open:", "vFile:close:", "vFile:pread:", "vFile:pwrite:", "vFile:fstat:", "vFile:unlink:", "vFile:readlink:", "vFile:setfs:", "vKill;", "vRun;", "vRun", "qAttached", "qAttached:", "qC", "qfThreadInfo", "qsThreadInfo", "qOffsets", "qRcmd,", "qRcmd", "qRegisterInfo", "qSupported:", "qSupported", "qThreadExtraInfo,", "qTBuffer:", "qTP:", "qTStatus", "qTfP", "qTsP", "qTfV", "qTsV", "qXfer:auxv:read:", "qXfer:exec-file:read:", "qXfer:features:read:", "qXfer:libraries-svr4:read:", "qXfer:memory-map:read:", "QCatchSyscalls:", "QDisableRandomization:", "QEnvironmentHexEncoded:", "QEnvironmentReset", "QEnvironmentUnset:", "QSetWorkingDir:", "QStartNoAckMode", "QStartupWithShell:", "QTBuffer:", "QTDP:", "QTDP:-", "QTDPsrc:", "QTFrame:", "QTStart", "QTStop", "QTinit", "QTFrame:range:", "QTBuffer:size:", "QTBuffer:circular:"];

pub fn p02(s: &mut Src, c: &mut Ctx) -> R {
    let mut u = Setup::gen(s, |s, c| { if s.bool() { *c = Cfg::all().with(F::Multi, c.on(F::Multi)).with(F::Rle, c.on(F::Rle)) } c.set(F::Guard, true) });
    if s.chance(1, 8) { let n = s.usize(8); u.buf = if s.bool() { Buf::owned(Some(n)) } else { Buf::Borrowed(vec![0; n], None) } }
    u.beh.lies = s.chance(1, 8);
    if u.beh.lies { c.label("with impossible byte counts") }
    let log = s.chance(1, 8);
    super::conn::logging(if log { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    if log { c.label("with logging") }
    let r = p02_session(s, c, u);
    super::conn::logging(log::LevelFilter::Off);
    r
}
fn p02_session(s: &mut Src, c: &mut Ctx, u: Setup) -> R {
    let (st, cs) = u.state();
    let m = u.model(&st);
    let mut stub = mock_session(u.bits, st.clone(), cs.clone(), &u.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    c.note(|| u.show());
    let mut fp = 0;
    let mut accepted = 0u64;
    let n = 1 + s.below(16);
    for _ in 0..n {
        match stub.kind() {
            Kind::Panicked(t) => return fail("panic", format!("panicked: {}", t)),
            Kind::Dead(_) => break,
            Kind::Disc(_) => { if s.bool() { break } stub.to_idle(); continue }
            Kind::CtrlC => { let r = s.bool().then(|| gen_stop(s, &m)); stub.interrupt(r.as_ref().map(|(r, b)| (r, *b))); continue }
            Kind::Running if s.chance(2, 3) => { let (r, b) = gen_stop(s, &m); stub.stop(&r, b); continue }
            _ => {}
        }
        let bytes: Vec<u8> = match s.weighted(&[10, 6, 2, 3, 2, 1]) {
            0 => {
                // a request with mutations, correctly framed
                let mut b = gen_cmd(*s.pick(FAMS), s, &m).body;
                for _ in 0..1 + s.usize(3) { mutate(s, &mut b) }
                frame(&b)
            }
            1 => frame(&gen_cmd(*s.pick(FAMS), s, &m).body),
            2 => {
                let mut b = frame(&gen_cmd(*s.pick(FAMS), s, &m).body);
                mutate(s, &mut b);
                b
            }
            3 => { let mut b = s.pick(PREFIXES).as_bytes().to_vec(); let x = match s.below(3) { 0 => vec![], 1 => s.bytes(20), _ => { let mut v = b"1:10,4;5:6".to_vec(); mutate(s, &mut v); mutate(s, &mut v); v } }; b.extend(x); frame(&b) }
            4 => { let k = s.usize(60); let mut v = s.bytes_n(k); if s.bool() { v.insert(0, b'$') } v }
            _ => { const A: &[u8] = b"$#+-\x030a$$##"; (0..s.usize(24)).map(|_| A[s.usize(A.len())]).collect() }
        };
        fp = mix(fp, hash_bytes(&bytes));
        c.note(|| show(&bytes));
        c.work += bytes.len() as u64;
        let a = cs.borrow().out.len();
        for x in bytes {
            if !matches!(stub.kind(), Kind::Idle | Kind::Running) { break }
            stub.feed(x);
        }
        if cs.borrow().out.len() > a { accepted += 1 }
        c.digest(hash_bytes(stub.kind().name().as_bytes()));
    }
    if let Kind::Panicked(t) = stub.kind() {
        let loc = t.lines().next().unwrap_or("").split("panicked at ").last().unwrap_or("").split(':').next().unwrap_or("").to_string();
        return fail(format!("panic:{}", loc), format!("panicked: {}", t));
    }
    c.digest(hash_bytes(&cs.borrow().out));
    c.digest(hash_bytes(format!("{:?}", st.borrow().log).as_bytes()));
    if let Kind::Dead(e) = stub.kind() { c.digest(hash_bytes(e.text.as_bytes())); c.label("ended with an error") }
    if accepted > 0 { c.nontrivial(fp); c.label("some requests were accepted") }
    let _ = <u64 as UInt>::BITS;
    Ok(())
}
