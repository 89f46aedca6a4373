//! Properties decided by generated histories judged by the model.

use crate::engine::*;
use crate::hist::*;
use crate::mock::*;
use crate::model::*;
use crate::rsp::*;
use crate::sess::*;

fn on(c: &mut Cfg, s: &mut Src, fs: &[F]) {
    // usually supported, sometimes left as drawn
    if s.chance(7, 8) { for f in fs { c.set(*f, true) } }
}
fn done(h: Result<Hist, Fail>) -> R { h.map(|_| ()) }

// ---- P03
pub fn p03(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &Plan { focus: p(3), fams: &[(Fam::Kill, 1), (Fam::Detach, 1), (Fam::NoAck, 1), (Fam::Bad, 1), (Fam::Resume, 6), (Fam::Monitor, 4), (Fam::Unknown, 3), (Fam::MemR, 3), (Fam::Xfer, 3)], ops: 20, ctrlc: 8, ..PLAN })?;
    let out: Vec<u8> = h.seen.iter().flat_map(|x| x.out.iter().copied()).collect();
    if out.contains(&b'$') { c.nontrivial(hash_bytes(&out)) }
    Ok(())
}

// ---- P04
pub fn p04(s: &mut Src, c: &mut Ctx) -> R {
    let plan = Plan {
        focus: p(4),
        fams: &[(Fam::MemR, 14), (Fam::Regs, 8), (Fam::Monitor, 8), (Fam::Xfer, 12), (Fam::Xml, 4), (Fam::HostIo, 6), (Fam::TQuery, 4), (Fam::TEnum, 4), (Fam::Reg, 4), (Fam::ThrExtra, 3), (Fam::Resume, 3)],
        tweak: |s, c| { c.set(F::Rle, !s.chance(1, 20)); on(c, s, &[F::Monitor, F::MemMap, F::Auxv, F::ExecFile, F::Svr4, F::HostIo, F::HPread, F::HReadlink, F::UseXml]) },
        setup: |s, u| {
            if s.bool() {
                // single byte values in runs of any length
                u.beh.objmode = 1;
                u.beh.memmode = 1;
                u.beh.salt = (u.beh.salt & !0xff00) | (s.idx % 256) << 8;
                for o in u.beh.objlen.iter_mut() { *o = s.usize(320) }
                u.beh.hi = u.beh.hi.max((u.beh.lo + 400).min((1 << u.bits) - 1));
            }
        },
        ..PLAN
    };
    let h = history(s, c, &plan)?;
    let mut u = h.setup.clone();
    let rle = u.cfg.on(F::Rle);
    u.cfg.set(F::Rle, false);
    let (st, cs) = u.state();
    let mut stub = mock_session(u.bits, st.clone(), cs.clone(), &u.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    let seen = replay(&mut *stub, &st, &cs, &h.script);
    let mut expanded = 0u64;
    for (i, (a, b)) in h.seen.iter().zip(&seen).enumerate() {
        let dead = matches!(a.kind, Kind::Dead(_) | Kind::Panicked(_));
        let toks = |x: &Seen, r: bool| -> Result<Vec<Option<Vec<u8>>>, Fail> {
            tokenize2(&x.out, dead).map_err(|e| Fail { sig: "malformed".into(), msg: e })?.into_iter().map(|t| Ok(match t {
                Tok::Ack => None,
                Tok::Pkt { raw, .. } => Some(if r { rle_expand(&raw).map_err(|e| Fail { sig: "rle".into(), msg: e })? } else { raw }),
            })).collect()
        };
        if rle && a.out.windows(2).any(|w| w[0] == b'*') { expanded = mix(expanded, hash_bytes(&a.out)) }
        let (ta, tb) = (toks(a, rle)?, toks(b, false)?);
        check!(ta == tb || (dead && (ta.starts_with(&tb) || tb.starts_with(&ta))), "rle-differs", "step {}: with run-length encoding {}\nwithout {}", i, show(&a.out), show(&b.out));
        check!(a.kind == b.kind && a.calls == b.calls, "rle-behaviour", "step {}: {:?} / {:?}", i, a, b);
        if !rle { check!(a.out == b.out, "rle-off", "step {}: {} / {}", i, show(&a.out), show(&b.out)) }
    }
    if expanded > 0 { c.nontrivial(expanded); c.label("with run-length markers") }
    Ok(())
}

// ---- P05
pub fn p05(s: &mut Src, c: &mut Ctx) -> R {
    if s.bool() {
        return done(history(s, c, &Plan { focus: p(5), fams: &[(Fam::NoAck, 14), (Fam::Unknown, 4), (Fam::Detach, 1), (Fam::Kill, 1), (Fam::Resume, 4)], bg: 1, tweak: |s, c| c.set(F::NoAck, !s.chance(1, 6)), ops: 18, ..PLAN }));
    }
    let h = history(s, c, &Plan { focus: p(5), fams: &[(Fam::Detach, 1), (Fam::Kill, 1), (Fam::Resume, 4)], tweak: |_, c| c.set(F::NoAck, true), setup: |_, u| if u.buf.cap() < 20 { u.buf = Buf::Borrowed(vec![0; 4096], None) }, ..PLAN })?;
    // the same session, with no-ack mode switched on first: the same replies, without acknowledgements
    let (st, cs) = h.setup.state();
    let mut stub = mock_session(h.setup.bits, st.clone(), cs.clone(), &h.setup.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    if stub.kind() != Kind::Idle { return Ok(()) }
    for b in frame(b"QStartNoAckMode") { stub.feed(b) }
    check!(cs.borrow().out == b"+$OK#9a", "enable", "QStartNoAckMode answered with {}", show(&cs.borrow().out));
    let skip = cs.borrow().out.len();
    let seen = replay(&mut *stub, &st, &cs, &h.script);
    let mut fp = 0;
    for (i, (a, b)) in h.seen.iter().zip(&seen).enumerate() {
        let dead = matches!(a.kind, Kind::Dead(_) | Kind::Panicked(_));
        let bout = if i == 0 { &b.out[skip..] } else { &b.out[..] };
        let toks = |x: &[u8]| tokenize2(x, dead).map_err(|e| Fail { sig: "malformed".into(), msg: e });
        let ta: Vec<_> = toks(&a.out)?.into_iter().filter_map(|t| match t { Tok::Ack => None, Tok::Pkt { raw, .. } => Some(raw) }).collect();
        let tb = toks(bout)?;
        check!(!tb.contains(&Tok::Ack), "ack-in-noack", "step {}: {}", i, show(bout));
        let tb: Vec<_> = tb.into_iter().filter_map(|t| match t { Tok::Ack => None, Tok::Pkt { raw, .. } => Some(raw) }).collect();
        check!(ta == tb, "noack-differs", "step {}: with acknowledgements {}\nwithout {}", i, show(&a.out), show(bout));
        check!(a.kind == b.kind && a.calls == b.calls, "noack-behaviour", "step {}: {:?} / {:?}", i, a, b);
        fp = mix(fp, hash_bytes(bout));
    }
    c.label("no-ack replay");
    c.nontrivial(fp);
    Ok(())
}

pub fn p06(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(6), fams: &[(Fam::MemR, 40), (Fam::Select, 6), (Fam::Resume, 4), (Fam::MemW, 3), (Fam::Bad, 1)], bg: 0, ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p07(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(7), fams: &[(Fam::MemW, 40), (Fam::Select, 6), (Fam::Resume, 4), (Fam::MemR, 3), (Fam::Bad, 3)], bg: 0, tweak: |s, c| on(c, s, &[F::XUp]), ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p08(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(8), fams: &[(Fam::Regs, 40), (Fam::Select, 6), (Fam::Resume, 4), (Fam::Reg, 3)], bg: 0, ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p09(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(9), fams: &[(Fam::Reg, 40), (Fam::Select, 6), (Fam::Resume, 4), (Fam::Regs, 3), (Fam::Bad, 2)], bg: 0, tweak: |s, c| on(c, s, &[F::Sra]), ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p10(s: &mut Src, c: &mut Ctx) -> R {
    use gdbstub::arch::BreakpointKind;
    use gdbstub_arch as ga;
    let h = history(s, c, &Plan { focus: p(10), fams: &[(Fam::Bp, 40), (Fam::Resume, 3), (Fam::Bad, 2)], bg: 0, tweak: |s, c| { on(c, s, &[F::Bp]); if s.bool() { on(c, s, &[F::Sw, F::Hw, F::Watch]) } }, ops: 10, ctrlc: 2, ..PLAN });
    // the breakpoint kinds of the shipped architectures
    let k = match s.below(3) { 0 => s.below(8), 1 => s.num(64), _ => s.below(300) } as usize;
    let arm = ga::arm::ArmBreakpointKind::from_usize(k).map(|x| format!("{:?}", x));
    let want = match k { 2 => Some("Thumb16"), 3 => Some("Thumb32"), 4 => Some("Arm32"), _ => None };
    check!(arm.as_deref() == want, "arm-kind", "ARM breakpoint kind {} maps to {:?}", k, arm);
    let mips = ga::mips::MipsBreakpointKind::from_usize(k).map(|x| format!("{:?}", x));
    let want = match k { 2 => Some("Mips16"), 3 => Some("MicroMips16"), 4 => Some("Mips32"), 5 => Some("MicroMips32"), _ => None };
    check!(mips.as_deref() == want, "mips-kind", "MIPS breakpoint kind {} maps to {:?}", k, mips);
    done(h)
}
pub fn p11(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(11), fams: &[(Fam::Resume, 40), (Fam::Reverse, 3), (Fam::Unknown, 2), (Fam::Select, 3), (Fam::Feat, 1)], bg: 0, tweak: |s, c| { c.set(F::Multi, false); on(c, s, &[F::Resume]); if s.chance(2, 3) { on(c, s, &[F::Step, F::Range]) } }, ops: 12, ctrlc: 4, ..PLAN }))
}
pub fn p12(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(12), fams: &[(Fam::Resume, 40), (Fam::Select, 14), (Fam::Reverse, 3), (Fam::Status, 2), (Fam::Feat, 3), (Fam::Ext, 1)], bg: 0, tweak: |s, c| { c.set(F::Multi, true); on(c, s, &[F::Resume]); if s.chance(2, 3) { on(c, s, &[F::Step, F::Range]) } }, ops: 12, ctrlc: 4, ..PLAN }))
}
pub fn p13(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(13), fams: &[(Fam::Resume, 40), (Fam::MemR, 4), (Fam::Regs, 4), (Fam::MemW, 2), (Fam::Feat, 4), (Fam::Status, 1), (Fam::Select, 3), (Fam::Reverse, 6)], bg: 0, tweak: |s, c| { on(c, s, &[F::Resume]); if s.chance(2, 3) { on(c, s, &[F::Bp, F::Sw, F::Hw, F::Watch, F::RCont, F::RStep, F::Catch, F::Step]) } }, ops: 16, ctrlc: 6, ..PLAN }))
}
pub fn p14(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(14), fams: &[(Fam::Resume, 30), (Fam::Reverse, 4), (Fam::Unknown, 4), (Fam::MemR, 3), (Fam::Kill, 1), (Fam::Detach, 1), (Fam::Status, 2), (Fam::Feat, 2)], bg: 1, tweak: |s, c| { on(c, s, &[F::Resume]); if s.bool() { on(c, s, &[F::Bp, F::Sw, F::Hw, F::Watch, F::RCont, F::RStep, F::Catch, F::Step]) } }, ops: 24, ctrlc: 35, ..PLAN }))
}
pub fn p15(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(15), fams: &[(Fam::Resume, 20), (Fam::Kill, 8), (Fam::Detach, 6), (Fam::Unknown, 2), (Fam::MemR, 2), (Fam::NoAck, 2), (Fam::Bad, 1)], bg: 1, tweak: |s, c| { on(c, s, &[F::Resume]); c.set(F::Ext, s.bool()) }, ops: 16, ctrlc: 4, ..PLAN }))
}
pub fn p16(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(16), fams: &[(Fam::Thread, 14), (Fam::Select, 14), (Fam::Status, 10), (Fam::Feat, 5), (Fam::MemR, 6), (Fam::MemW, 4), (Fam::Reg, 4), (Fam::Regs, 4), (Fam::Resume, 6), (Fam::Ext, 4), (Fam::Reverse, 2), (Fam::ThrExtra, 2), (Fam::Bad, 1)], bg: 0, tweak: |s, c| { c.set(F::Multi, s.chance(4, 5)); if s.bool() { on(c, s, &[F::Ext, F::CurPid, F::Resume]) } }, ops: 18, ctrlc: 2, ..PLAN }))
}

// ---- P17
pub fn p17(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &Plan { focus: p(17), fams: &[(Fam::Feat, 30), (Fam::Resume, 8), (Fam::NoAck, 2), (Fam::Status, 4)], bg: 2, tweak: |s, c| if s.chance(2, 3) { let m = c.on(F::Multi); c.0 = s.raw() & Cfg::all().0; c.set(F::Multi, m); if !s.chance(1, 50) && !c.sw() { c.set(F::Guard, true) } }, ops: 14, ..PLAN })?;
    // listed <=> accepted
    let mut u = h.setup;
    u.buf = Buf::owned(None);
    u.beh.nf = 0;
    u.beh.fatal = 0;
    let (st, cs) = u.state();
    let mut stub = mock_session(u.bits, st.clone(), cs.clone(), &u.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    if stub.kind() != Kind::Idle { return Ok(()) }
    u.cfg.on(F::Rle);
    let mut ask = |b: &[u8]| -> Result<Vec<u8>, Fail> {
        let a = cs.borrow().out.len();
        for x in frame(b) { if matches!(stub.kind(), Kind::Idle) { stub.feed(x) } }
        let out = cs.borrow().out[a..].to_vec();
        check!(stub.kind() == Kind::Idle, "probe-state", "{} left the session in {:?}", show(b), stub.kind());
        for t in tokenize(&out).map_err(|e| Fail { sig: "probe-malformed".into(), msg: e })? {
            if let Tok::Pkt { raw, .. } = t {
                return if u.cfg.on(F::Rle) { rle_expand(&raw).map_err(|e| Fail { sig: "probe-rle".into(), msg: e }) } else { Ok(raw) };
            }
        }
        fail("probe-noreply", format!("no reply to {}", show(b)))
    };
    let r = ask(b"qSupported:multiprocess+")?;
    let list: Vec<String> = r.split(|b| *b == b';').map(|x| String::from_utf8_lossy(x).into_owned()).collect();
    let has = |f: &str| list.iter().any(|x| x.strip_suffix('+') == Some(f));
    const PROBES: &[(&str, &[u8])] = &[
        ("QDisableRandomization", b"QDisableRandomization:1"), ("QEnvironmentHexEncoded", b"QEnvironmentHexEncoded:613d62"), ("QEnvironmentUnset", b"QEnvironmentUnset:61"), ("QEnvironmentReset", b"QEnvironmentReset"),
        ("QStartupWithShell", b"QStartupWithShell:1"), ("QSetWorkingDir", b"QSetWorkingDir:2f"), ("QTBuffer:size", b"QTBuffer:size:100"), ("TracepointSource", b"QTDPsrc:1:10:at:0:1:61"), ("QCatchSyscalls", b"QCatchSyscalls:1"),
        ("qXfer:features:read", b"qXfer:features:read:target.xml:0,40"), ("qXfer:memory-map:read", b"qXfer:memory-map:read::0,40"), ("qXfer:exec-file:read", b"qXfer:exec-file:read::0,40"), ("qXfer:auxv:read", b"qXfer:auxv:read::0,40"), ("qXfer:libraries-svr4:read", b"qXfer:libraries-svr4:read::0,40"),
        ("QStartNoAckMode", b"QStartNoAckMode"), ("swbreak", b"Z0,10,1"),
        // not a feature of anything: never accepted
        ("qXfer:siginfo:read", b"qXfer:siginfo:read::0,40"), ("ConditionalBreakpoints", b"QTEnable:1:10"),
    ];
    let mut fp = 1;
    for (f, q) in PROBES {
        let x = ask(q)?;
        let ok = !x.is_empty();
        check!(ok == has(f), format!("listed-accepted:{}", f), "{} listed: {}, but {} is answered with {}\nlist {:?}", f, has(f), show(q), show(&x), list);
        fp = fp * 2 + ok as u64;
    }
    let (hw, w) = (ask(b"Z1,10,1")?, ask(b"Z2,10,1")?);
    check!(has("hwbreak") == (!hw.is_empty() || !w.is_empty()), "listed-accepted:hwbreak", "hwbreak listed: {} but Z1 {} Z2 {}", has("hwbreak"), show(&hw), show(&w));
    c.nontrivial(fp);
    Ok(())
}

// ---- P18
pub fn p18(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &Plan { focus: p(18), fams: &[(Fam::Unknown, 30), (Fam::Resume, 4), (Fam::NoAck, 1)], bg: 2, tweak: |s, c| if s.chance(2, 3) { let (m, r) = (c.on(F::Multi), c.on(F::Rle)); c.0 = s.raw() & s.raw() & Cfg::all().0; c.set(F::Multi, m); c.set(F::Rle, r); c.set(F::Guard, true) }, ops: 14, ..PLAN })?;
    // the same history with unknown requests in between: everything else stays the same
    if s.chance(1, 2) || matches!(h.seen[0].kind, Kind::Dead(_)) { return Ok(()) }
    const U: &[&[u8]] = &[b"", b"vMustReplyEmpty", b"qSymbol::", b"QNonStop:1", b"vStopped", b"jThreadsInfo", b"qL1160000000000000000", b"QThreadSuffixSupported", b"Y1", b"qXfer:siginfo:read::0,100"];
    let (st, cs) = h.setup.state();
    let mut stub = mock_session(h.setup.bits, st.clone(), cs.clone(), &h.setup.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    let cap = h.setup.buf.cap();
    let mut acks = true;
    let mut inserted = 0;
    for (i, step) in h.script.iter().enumerate() {
        if matches!(stub.kind(), Kind::Idle) && s.bool() {
            let q = *s.pick(U);
            if q.len() + 4 <= cap {
                let (a, b) = (cs.borrow().out.len(), st.borrow().log.len());
                for x in frame(q) { if stub.kind() == Kind::Idle { stub.feed(x) } }
                let out = cs.borrow().out[a..].to_vec();
                let want: &[u8] = if acks { b"+$#00" } else { b"$#00" };
                check!(stub.kind() == Kind::Idle && st.borrow().log.len() == b && out == want, "inserted", "unknown request {} inserted before step {}: state {:?} output {} calls {:?}", show(q), i, stub.kind(), show(&out), &st.borrow().log[b..]);
                inserted += 1;
            }
        }
        let (a, b) = (cs.borrow().out.len(), st.borrow().log.len());
        do_step(&mut *stub, step);
        let want = &h.seen[i + 1];
        let got = Seen { out: cs.borrow().out[a..].to_vec(), calls: st.borrow().log[b..].to_vec(), kind: stub.kind() };
        check!(got == *want, "disturbed", "after unknown requests, step {:?} gives\n{:?}\ninstead of\n{:?}", step, got, want);
        if let Step::Bytes(b) = step { if b.ends_with(b"$QStartNoAckMode#b0") || b.ends_with(b"$QStartNoAckMode#B0") { if got.out == b"+$OK#9a" { acks = false } } }
    }
    if inserted > 0 { c.nontrivial(inserted); c.label("metamorphic insertion") }
    Ok(())
}

pub fn p19(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &Plan { focus: p(19), fams: &[(Fam::Xfer, 40), (Fam::Feat, 2), (Fam::Ext, 2)], bg: 0, tweak: |s, c| on(c, s, &[F::MemMap, F::ExecFile, F::Auxv, F::Svr4]), ops: 10, ctrlc: 2, ..PLAN });
    let h = h?;
    client_loop(s, c, h.setup, &[(F::MemMap, "memory-map", Obj::MemMap), (F::ExecFile, "exec-file", Obj::ExecFile), (F::Auxv, "auxv", Obj::Auxv), (F::Svr4, "libraries-svr4", Obj::Svr4)])
}
/// the loop a client runs: read from the end of what it has until `l`
fn client_loop(s: &mut Src, c: &mut Ctx, mut u: Setup, objs: &[(F, &str, Obj)]) -> R {
    let (f, name, obj) = objs[s.usize(objs.len())];
    if !u.cfg.on(f) { return Ok(()) }
    if f == F::UseXml && u.xml.is_none() && !u.cfg.on(F::XmlOvr) { return Ok(()) }
    u.beh.nf = 0;
    u.beh.fatal = 0;
    if u.buf.cap() < 60 || s.big && u.buf.cap() < 600 { u.buf = Buf::owned(None) }
    let (st, cs) = u.state();
    let mut stub = mock_session(u.bits, st.clone(), cs.clone(), &u.buf).map_err(|e| Fail { sig: "builder".into(), msg: e })?;
    if stub.kind() != Kind::Idle { return Ok(()) }
    let pid = (obj == Obj::ExecFile && s.bool()).then(|| gen_tid(s));
    let annex = match pid { Some(p) => format!("{:x}", p), None if obj == Obj::Xml => "target.xml".into(), None => String::new() };
    let want = if obj == Obj::Xml && !u.cfg.on(F::XmlOvr) { u.xml.unwrap_or("").trim().as_bytes().to_vec() } else {
        st.borrow().obj(obj, pid, if obj == Obj::Xml { b"target.xml" } else { b"" }) };
    let mut got: Vec<u8> = vec![];
    let mut rounds = 0;
    // windows of a sensible size for a large object
    let least = 1 + want.len() as u64 / 300;
    let fixed = s.bool().then(|| least + s.below(400));
    loop {
        let n = fixed.unwrap_or_else(|| least + s.below(400));
        let q = format!("qXfer:{}:read:{}:{:x},{:x}", name, annex, got.len(), n);
        let a = cs.borrow().out.len();
        for x in frame(q.as_bytes()) { if stub.kind() == Kind::Idle { stub.feed(x) } }
        check!(stub.kind() == Kind::Idle, "loop-state", "{} left the session in {:?}", q, stub.kind());
        let out = cs.borrow().out[a..].to_vec();
        let pk: Vec<Vec<u8>> = tokenize(&out).map_err(|e| Fail { sig: "loop-malformed".into(), msg: e })?.into_iter().filter_map(|t| match t { Tok::Pkt { raw, .. } => Some(raw), _ => None }).collect();
        check!(pk.len() == 1, "loop-replies", "{} answered with {}", q, show(&out));
        let x = if u.cfg.on(F::Rle) { rle_expand(&pk[0]).map_err(|e| Fail { sig: "loop-rle".into(), msg: e })? } else { pk[0].clone() };
        check!(matches!(x.first(), Some(b'l' | b'm')), "loop-marker", "{} answered with {}", q, show(&x));
        let d = unescape(&x[1..]).map_err(|e| Fail { sig: "loop-escape".into(), msg: e })?;
        check!(d.len() as u64 <= n, "loop-more", "{} answered with {} bytes", q, d.len());
        got.extend_from_slice(&d);
        check!(want.starts_with(&got), "loop-data", "after {} the object so far is {}\nbut should be {}", q, show(&got), show(&want));
        if x[0] == b'l' { break }
        check!(!d.is_empty(), "loop-stuck", "{} answered with no data but not marked as the end", q);
        rounds += 1;
        c.work += 1;
    }
    check!(got == want, "loop-short", "the client's loop ended with {} of {} bytes of {}", got.len(), want.len(), name);
    if rounds > 0 { c.nontrivial(mix(hash_bytes(&want), rounds)); c.label("reassembled in several chunks") }
    Ok(())
}
pub fn p37(s: &mut Src, c: &mut Ctx) -> R {
    let h = history(s, c, &Plan { focus: p(37), fams: &[(Fam::Xml, 40), (Fam::Feat, 3), (Fam::Xfer, 2)], bg: 0, tweak: |s, c| on(c, s, &[F::UseXml]), setup: |s, u| u.cfg.set(F::XmlOvr, s.chance(1, 3)), ops: 10, ctrlc: 2, ..PLAN })?;
    client_loop(s, c, h.setup, &[(F::UseXml, "features", Obj::Xml)])
}
pub fn p20(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(20), fams: &[(Fam::HostIo, 40), (Fam::Bad, 2)], bg: 0, tweak: |s, c| { on(c, s, &[F::HostIo]); if s.chance(3, 4) { on(c, s, &[F::HOpen, F::HClose, F::HPread, F::HPwrite, F::HFstat, F::HUnlink, F::HReadlink, F::HSetfs]) } }, ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p21(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(21), fams: &[(Fam::Ext, 30), (Fam::Settings, 20), (Fam::Kill, 3), (Fam::Status, 3), (Fam::Feat, 3), (Fam::Bad, 2), (Fam::Thread, 2)], bg: 0, tweak: |s, c| { on(c, s, &[F::Ext]); if s.chance(2, 3) { on(c, s, &[F::Aslr, F::Env, F::Shell, F::Wdir, F::CurPid]) } }, ops: 12, ctrlc: 2, ..PLAN }))
}
pub fn p22(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(22), fams: &[(Fam::Monitor, 40), (Fam::Bad, 1)], bg: 0, tweak: |s, c| on(c, s, &[F::Monitor]), ops: 8, ctrlc: 2, ..PLAN }))
}
pub fn p23(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(23), fams: &[(Fam::Catch, 40), (Fam::Resume, 4), (Fam::Bad, 2)], bg: 0, tweak: |s, c| on(c, s, &[F::Catch]), ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p24(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(24), fams: &[(Fam::TDef, 40), (Fam::TBuf, 10), (Fam::TEnum, 4), (Fam::Bad, 3)], bg: 0, tweak: |s, c| on(c, s, &[F::Trace, F::TraceSrc]), ops: 14, ctrlc: 2, ..PLAN }))
}
pub fn p25(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(25), fams: &[(Fam::TEnum, 40), (Fam::TQuery, 20), (Fam::TDef, 6), (Fam::Bad, 2)], bg: 0, tweak: |s, c| { on(c, s, &[F::Trace]); if s.bool() { on(c, s, &[F::TraceSrc]) } }, ops: 24, ctrlc: 2, ..PLAN }))
}
pub fn p26(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(26), fams: &[(Fam::Lldb, 40)], bg: 0, tweak: |s, c| { on(c, s, &[F::UseLldb]); c.set(F::LldbOvr, s.bool()) }, ops: 10, ctrlc: 2, ..PLAN }))
}
pub fn p27(s: &mut Src, c: &mut Ctx) -> R {
    fn errs(s: &mut Src, u: &mut Setup) {
        (u.beh.nf, u.beh.fatal) = match s.below(4) { 0 => (400, 0), 1 => (150, 0), 2 => (100, 60), _ => (0, 80) };
        if s.chance(1, 4) {
            // one error at a chosen call
            let e = match s.below(5) { 0 => E::NonFatal, 1 => E::Errno(s.raw() as u8), 2 => E::Io(None), 3 => E::Io(Some(s.below(400) as i32)), _ => E::Fatal(s.raw() as u32) };
            u.beh.nf = 0;
            u.beh.fatal = 0;
            u.beh.err_at = Some((1 + s.below(12), e));
        }
    }
    let h = history(s, c, &Plan { focus: p(27), fams: &[(Fam::Kill, 1), (Fam::Bad, 1), (Fam::MemR, 5), (Fam::MemW, 2), (Fam::HostIo, 6), (Fam::Ext, 3), (Fam::Resume, 5), (Fam::TDef, 4), (Fam::TQuery, 4), (Fam::TEnum, 4), (Fam::Thread, 4), (Fam::Xfer, 3), (Fam::Status, 2), (Fam::Feat, 2), (Fam::Select, 2)], bg: 1, setup: errs, ops: 16, ..PLAN })?;
    let errs: Vec<String> = h.seen.iter().flat_map(|x| x.calls.iter()).filter_map(|x| x.err().map(|e| format!("{:?} {:?}", x.k, e))).collect();
    if !errs.is_empty() { c.nontrivial(hash_bytes(errs.join(";").as_bytes())); c.label("target error occurred") }
    Ok(())
}
pub fn p34(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(34), fams: &[(Fam::Offs, 20), (Fam::ThrExtra, 20), (Fam::Reverse, 20), (Fam::Select, 8), (Fam::Resume, 2), (Fam::Feat, 2), (Fam::Bad, 1)], bg: 0, tweak: |s, c| { on(c, s, &[F::SecOff, F::ThrExtra, F::Resume]); if s.bool() { on(c, s, &[F::RCont, F::RStep]) }; c.set(F::Multi, s.chance(3, 4)) }, ops: 12, ctrlc: 2, ..PLAN }))
}
pub fn p31_hist(s: &mut Src, c: &mut Ctx) -> R {
    done(history(s, c, &Plan { focus: p(31), fams: &[(Fam::MemR, 6), (Fam::MemW, 6), (Fam::Bp, 6), (Fam::HostIo, 8), (Fam::Catch, 6), (Fam::TDef, 8), (Fam::TQuery, 8), (Fam::TEnum, 8), (Fam::Lldb, 4), (Fam::Offs, 4), (Fam::Status, 4), (Fam::Thread, 4), (Fam::Resume, 8), (Fam::Reg, 3), (Fam::Ext, 3), (Fam::Feat, 2)], bg: 1, ..PLAN }))
}

// ---- known finding of P12
fn probe_p12() -> bool {
    let u = Setup { cfg: Cfg::all().with(F::Multi, true), bits: 64, beh: Beh { threads: vec![1, 2], pid: 1, hi: 100, ..Default::default() }, buf: Buf::owned(None), reg_len: 16, xml: None, lldb: None, bulk: false, bk_mode: 0 };
    let (st, cs) = u.state();
    let mut stub = mock_session(64, st.clone(), cs, &u.buf).unwrap();
    for b in frame(b"vCont;C05") { stub.feed(b) }
    // the signal reaches no thread
    stub.kind() == Kind::Running && !st.borrow().log.iter().any(|c| matches!(c.k, K::MCont(_, Some(5)) | K::MStep(_, Some(5))))
}
pub const P12_FIND: &[(&str, &str, fn() -> bool)] = &[("vcont-C-all-signal-dropped", "a multi-threaded `vCont;C sig` for all threads resumes them, but the signal is never passed to the target", probe_p12)];
