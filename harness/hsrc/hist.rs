//! Drives generated histories against the model.

use crate::engine::*;
use crate::mock::*;
use crate::model::*;
use crate::rsp::*;
use crate::sess::*;
use crate::tarch::*;

/// everything needed to create a session again
#[derive(Debug, Clone)]
pub struct Setup {
    pub cfg: Cfg,
    pub bits: u32,
    pub beh: Beh,
    pub buf: Buf,
    pub reg_len: usize,
    pub xml: Option<&'static str>,
    pub lldb: Option<u64>,
    pub bulk: bool,
    pub bk_mode: u8,
}
const SMALL_XML: &str = "  \n<target version=\"1.0\"><architecture>#$}*+-</architecture></target>\n\t ";
impl Setup {
    pub fn gen(s: &mut Src, tweak: fn(&mut Src, &mut Cfg)) -> Setup {
        s.big = s.chance(1, 12);
        s.huge = s.big && s.chance(1, 60);
        let bits = [64, 64, 32, 16][s.usize(4)];
        let mut cfg = gen_cfg(s);
        tweak(s, &mut cfg);
        let mut beh = gen_beh(s, bits);
        let buf = gen_buf(s);
        // much memory through a tiny buffer only costs time
        if buf.cap() < 1000 { beh.hi = beh.hi.min(beh.lo + 20_000) }
        let reg_len = match s.below(4) { 0 => s.usize(4), 1 => 1 + s.usize(40), 2 => 64 + s.usize(s.lim(300, 3000)), _ => 16 };
        let xml = [Some(SMALL_XML), Some(BIG_XML), Some(""), None][s.weighted(&[4, 4, 1, 1])];
        let lldb = s.chance(3, 4).then(|| s.raw());
        Setup { cfg, bits, beh, buf, reg_len, xml, lldb, bulk: s.bool(), bk_mode: 0 }
    }
    /// set the per-thread parameters of the synthetic architecture
    pub fn apply(&self) {
        REG_LEN.with(|r| r.set(self.reg_len));
        ARCH_XML.with(|r| r.set(self.xml));
        ARCH_LLDB.with(|r| r.set(self.lldb));
        BK_MODE.with(|r| r.set(self.bk_mode));
    }
    pub fn state(&self) -> (St, Cs) {
        self.apply();
        let st = new_state(self.cfg, self.beh.clone(), self.bits);
        let cs: Cs = Default::default();
        cs.borrow_mut().bulk = self.bulk;
        st.borrow_mut().wire = Some(cs.clone());
        (st, cs)
    }
    pub fn model(&self, st: &St) -> Model {
        Model {
            cfg: self.cfg, bits: self.bits, acks: true, mp: false, mem_tid: 1, mem_why: p(16), mem_set: false, res_why: 0, res_tid: None, res_set: false, deferred: None, kind: MK::Idle,
            buf: self.buf.clone(), full: self.buf.cap(), reg_len: self.reg_len, xml: self.xml, lldb: self.lldb, cur: Cur::None, items: None, st: st.clone(),
        }
    }
    pub fn show(&self) -> String {
        format!("{}-bit {:?} buf={} nf={} fatal={}", self.bits, self.cfg, match &self.buf { Buf::Borrowed(v, n) => format!("borrowed {}/{:?}", v.len(), n), Buf::Owned(n) => format!("owned {:?}", n) }, self.beh.nf, self.beh.fatal)
    }
}
pub fn gen_buf(s: &mut Src) -> Buf {
    let n = match s.below(8) { 0..=5 if s.huge => 2000 + s.usize(200_000), 0 if s.big && s.chance(1, 3) => 65_500 + s.usize(80_000), 0..=3 if s.big => 2000 + s.usize(30_000), 0 => 4096, 1 => 1000 + s.usize(3000), 2 => 40 + s.usize(60), 3 => 8 + s.usize(40), 4 => 64 + s.usize(140), _ => 200 + s.usize(600) };
    match s.below(6) {
        0 | 1 => Buf::owned(None),
        2 => Buf::owned(Some(n)),
        3 => { let m = n + s.usize(100); Buf::Borrowed(s.bytes_n(m), Some(n)) }
        _ => Buf::Borrowed(s.bytes_n(n), None),
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Bytes(Vec<u8>),
    Stop(StopR, bool),
    Interrupt(Option<(StopR, bool)>),
    ToIdle,
}

/// what happened in one step
#[derive(Debug, Clone, PartialEq)]
pub struct Seen {
    pub out: Vec<u8>,
    pub calls: Vec<Call>,
    pub kind: Kind,
}
pub fn do_step(stub: &mut dyn Stub, step: &Step) {
    match step {
        Step::Bytes(b) => for &x in b {
            if !matches!(stub.kind(), Kind::Idle | Kind::Running) { break }
            stub.feed(x)
        },
        Step::Stop(r, m) => stub.stop(r, *m),
        Step::Interrupt(r) => stub.interrupt(r.as_ref().map(|(r, m)| (r, *m))),
        Step::ToIdle => stub.to_idle(),
    }
}
/// replay a script on a session
pub fn replay(stub: &mut dyn Stub, st: &St, cs: &Cs, script: &[Step]) -> Vec<Seen> {
    let mut v = vec![];
    let look = |stub: &dyn Stub, a: usize, b: usize| Seen { out: cs.borrow().out[a..].to_vec(), calls: st.borrow().log[b..].to_vec(), kind: stub.kind() };
    v.push(look(stub, 0, 0));
    for s in script {
        let (a, b) = (cs.borrow().out.len(), st.borrow().log.len());
        do_step(stub, s);
        v.push(look(stub, a, b));
    }
    v
}

pub struct Plan {
    pub focus: M,
    pub fams: &'static [(Fam, u32)],
    /// weight of all other families
    pub bg: u32,
    pub tweak: fn(&mut Src, &mut Cfg),
    pub setup: fn(&mut Src, &mut Setup),
    pub ops: u64,
    /// chance in 100 of a Ctrl-C instead of a request while idle
    pub ctrlc: u64,
    pub fit: fn(&[u8]) -> bool,
}
pub const PLAN: Plan = Plan { focus: ALL, fams: &[], bg: 1, tweak: |_, _| {}, setup: |_, _| {}, ops: 14, ctrlc: 4, fit: |_| true };

pub struct Hist {
    pub setup: Setup,
    pub script: Vec<Step>,
    pub seen: Vec<Seen>,
    pub focus_hits: u64,
}

pub fn gen_stop(s: &mut Src, m: &Model) -> (StopR, bool) {
    let multi = if m.cfg.multi() { !s.chance(1, 16) } else { s.chance(1, 40) };
    let t = if m.cfg.multi() { let ts = m.threads(); if !ts.is_empty() && s.chance(2, 3) { ts[s.usize(ts.len())] } else { gen_tid(s) } } else { 1 };
    let code = match s.below(3) { 0 => 5, 1 => s.below(20) as u8, _ => s.raw() as u8 };
    let c = &m.cfg;
    let mut ks: Vec<(u32, u32)> = vec![(0, 4), (3, 3), (4, 6), (1, 2), (2, 2)];
    let mut add = |k: u32, on: bool| ks.push((k, if on { 4 } else { 0 }));
    add(5, c.sw());
    add(6, c.hw());
    add(7, c.watch());
    add(8, c.rcont() || c.rstep());
    add(9, c.on(F::Catch));
    let wild = s.chance(1, 40);
    let ws: Vec<u32> = ks.iter().map(|k| if wild { 1 } else { k.1 }).collect();
    let k = ks[s.weighted(&ws)].0;
    let bits = m.bits;
    let r = match k {
        0 => StopR::DoneStep,
        1 => StopR::Exited(code),
        2 => StopR::Term(code),
        3 => StopR::Sig(code),
        4 => StopR::SigT(t, code),
        5 => StopR::SwBreak(t),
        6 => StopR::HwBreak(t),
        7 => StopR::Watch(t, [BpK::W, BpK::R, BpK::A][s.usize(3)], s.num(bits) as u128),
        8 => StopR::Replay(s.chance(3, 4).then_some(t), s.bool()),
        _ => StopR::Sysc(s.chance(3, 4).then_some(t), s.num(bits) as u128, s.bool()),
    };
    (r, multi)
}

enum Next { Go, End }

struct Run<'a> {
    plan: &'a Plan,
    stub: Box<dyn Stub>,
    st: St,
    cs: Cs,
    m: Model,
    script: Vec<Step>,
    seen: Vec<Seen>,
    focus_hits: u64,
    fp: u64,
    /// a kill without a reply left its acknowledgement unflushed
    killed: bool,
    after: M,
}
impl Run<'_> {
    /// do a step and check everything that is true of every step
    fn step(&mut self, step: Step, acked: Option<bool>) -> Result<(Seen, Vec<Vec<u8>>), Fault> {
        let (a, b) = (self.cs.borrow().out.len(), self.st.borrow().log.len());
        if let (Step::Bytes(v), Some(_)) = (&step, acked) {
            // nothing may happen before the packet is complete
            let n = v.len();
            do_step(&mut *self.stub, &Step::Bytes(v[..n - 1].to_vec()));
            if self.cs.borrow().out.len() != a || self.st.borrow().log.len() != b || !kind_matches(&self.stub.kind(), &self.m.kind) {
                let k = self.stub.kind();
                let pm = if let Kind::Panicked(_) = &k { p(2) } else { 0 };
                self.script.push(step.clone());
                return fault(p(1) | p(14) | pm, "early", format!("something happened before the packet {} was complete: state {:?}, output {}", show(v), k, show(&self.cs.borrow().out[a..])));
            }
            do_step(&mut *self.stub, &Step::Bytes(v[n - 1..].to_vec()));
        } else {
            do_step(&mut *self.stub, &step);
        }
        self.script.push(step);
        let seen = Seen { out: self.cs.borrow().out[a..].to_vec(), calls: self.st.borrow().log[b..].to_vec(), kind: self.stub.kind() };
        self.seen.push(seen.clone());
        let alive = seen.kind.alive();
        let dead = matches!(seen.kind, Kind::Dead(_) | Kind::Panicked(_));
        let toks = match tokenize2(&seen.out, dead) {
            Ok(t) => t,
            Err(e) => return fault(p(3) | if e.contains("unescaped") && self.m.cfg.on(F::Rle) { p(4) } else { 0 }, "malformed-output", e),
        };
        // the only thing that may stay unflushed: what precedes a kill that has no reply
        let c = self.cs.borrow();
        if !self.m.cfg.on(F::Ext) && seen.kind == Kind::Disc(DR::Kill) { self.killed = true }
        if c.flushed == c.out.len() { self.killed = false }
        drop(c);
        if (alive || matches!(seen.kind, Kind::Disc(_))) && !self.killed {
            let c = self.cs.borrow();
            // an acknowledgement that does not leave is not sent
            let bits = if c.out[c.flushed..].contains(&b'+') { p(3) | p(5) } else { p(3) };
            want!(bits, c.flushed == c.out.len(), "not-flushed", "{} bytes are written but not flushed while the stub waits ({})", c.out.len() - c.flushed, show(&c.out[c.flushed..]));
        }
        let mut acks = 0;
        let mut pkts = vec![];
        for t in toks {
            match t {
                Tok::Ack => {
                    acks += 1;
                    want!(p(5) | p(3), pkts.is_empty(), "late-ack", "an acknowledgement after a reply: {}", show(&seen.out));
                }
                Tok::Pkt { raw, .. } => {
                    if self.m.cfg.on(F::Rle) {
                        match rle_expand(&raw) {
                            Ok(x) => pkts.push(x),
                            Err(e) => return fault(p(4) | p(3), "rle", e),
                        }
                    } else { pkts.push(raw) }
                }
            }
        }
        let exp = matches!(acked, Some(true)) as usize;
        if dead { want!(p(5) | p(3), acks <= exp, "acks", "{} acknowledgements, expected at most {}: {}", acks, exp, show(&seen.out)); }
        else { want!(p(5) | p(3), acks == exp, "acks", "{} acknowledgements, expected {}: {}", acks, exp, show(&seen.out)); }
        Ok((seen, pkts))
    }

    fn next(&mut self, s: &mut Src) -> Result<Next, Fault> {
        let before = self.m.kind.clone();
        match before {
            MK::Gone => return Ok(Next::End),
            MK::Disc(_) => {
                if s.chance(1, 2) { return Ok(Next::End) }
                self.m.deferred = None;
                self.m.kind = MK::Idle;
                let (seen, pkts) = self.step(Step::ToIdle, None)?;
                want!(p(14) | p(15), seen.kind == Kind::Idle && pkts.is_empty() && seen.calls.is_empty(), "to-idle", "returning to idle: {:?}", seen);
                return Ok(Next::Go);
            }
            MK::CtrlC { idle } => {
                let r = s.chance(3, 5).then(|| gen_stop(s, &self.m));
                let (seen, pkts) = self.step(Step::Interrupt(r.clone()), None)?;
                let o = Obs { calls: &seen.calls, pkts, kind: seen.kind.clone(), before: before.clone() };
                self.focus_hits += (self.plan.focus & p(14) != 0) as u64;
                if !idle { if let Some(r) = self.query_failed(&o) { r?; return Ok(Next::Go) } }
                no_calls(&o, p(14))?;
                if idle {
                    want!(p(14), o.pkts.is_empty() && o.kind == Kind::Idle, "interrupt-idle", "interrupt handled while idle: sent {:?}, state {:?}", o.pkts, o.kind);
                    if r.is_some() { self.m.deferred = r }
                    self.m.kind = MK::Idle;
                } else {
                    match r {
                        None => { want!(p(14), o.pkts.is_empty() && o.kind == Kind::Running, "interrupt-running", "interrupt declined while running: sent {:?}, state {:?}", o.pkts, o.kind); self.m.kind = MK::Running; }
                        Some((r, mu)) => judge_stop(&mut self.m, &o, &r, mu, p(14))?,
                    }
                }
                return Ok(Next::Go);
            }
            MK::Running => {
                match s.weighted(&[14, 3, 2]) {
                    0 => {
                        let (r, mu) = gen_stop(s, &self.m);
                        // a request that is on its way when the target stops
                        let early = if self.plan.focus != p(18) && stop_ok(&self.m.cfg, &r) && !matches!(r, StopR::Exited(_) | StopR::Term(_)) && s.chance(1, 12) { self.early(s, &r, mu)? } else { None };
                        let (seen, pkts) = self.step(Step::Stop(r.clone(), mu), None)?;
                        let o = Obs { calls: &seen.calls, pkts, kind: seen.kind.clone(), before };
                        self.focus_hits += (self.plan.focus & p(13) != 0) as u64;
                        if let Some(r) = self.query_failed(&o) { r?; return Ok(Next::Go) }
                        no_calls(&o, p(13))?;
                        judge_stop(&mut self.m, &o, &r, mu, 0)?;
                        if let Some((c, rest)) = early {
                            self.after |= p(14) | p(1);
                            return self.request(MK::Idle, c, rest);
                        }
                        return Ok(Next::Go);
                    }
                    1 => return self.ctrlc(),
                    _ => {}
                }
            }
            MK::Idle => {
                if s.chance(self.plan.ctrlc, 100) { return self.ctrlc() }
            }
        }
        match self.gen_request(s) {
            Some((c, bytes)) => self.request(before, c, bytes),
            None => Ok(Next::Go),
        }
    }
    /// a question the target failed to answer ends the session, whatever was going on
    fn query_failed(&mut self, o: &Obs) -> Option<JR> {
        let i = o.calls.iter().position(|c| matches!(c.k, K::Query(_)))?;
        let e = o.calls[i].err()?.clone();
        if i + 1 != o.calls.len() { return Some(fault(p(27), "fatal-continued", format!("the target failed ({:?}) and was asked again: {:?}", o.calls[i], &o.calls[i + 1..]))) }
        if let Some((K::Monitor(_), Out::Chunks(ch))) = i.checked_sub(1).map(|i| (&o.calls[i].k, &o.calls[i].out)) {
            // what was printed before the failure still arrives
            let (want, mut got) = (ch.concat(), vec![]);
            for q in &o.pkts { if let Some(d) = q.strip_prefix(b"O").and_then(|h| unhex(h).ok()) { got.extend(d) } }
            if got != want { return Some(fault(p(22) | p(28), "monitor-lost", format!("printed {} before failing, arrived {}", show(&want), show(&got)))) }
        }
        Some(after_err(&mut self.m, o, p(27), &e))
    }
    fn gen_request(&self, s: &mut Src) -> Option<(Cmd, Vec<u8>)> {
        let mut ws = vec![];
        for f in FAMS {
            let w = self.plan.fams.iter().find(|x| x.0 == *f).map_or(if matches!(f, Fam::Kill | Fam::Detach | Fam::Bad | Fam::NoAck) { 0 } else { self.plan.bg }, |x| x.1);
            ws.push(w);
        }
        let mut fam = FAMS[s.weighted(&ws)];
        // let long listings get somewhere
        if s.huge && !matches!(self.m.cur, Cur::None | Cur::Stale) && self.plan.fams.iter().any(|x| x.0 == Fam::TEnum && x.1 >= 20) && s.chance(199, 200) { fam = Fam::TEnum }
        let c = gen_cmd(fam, s, &self.m);
        if !self.m.fits(c.body.len()) || c.body.contains(&b'#') { return None }
        let mut bytes = frame_case(s, &c.body);
        if s.chance(1, 3) {
            // acknowledgements of earlier replies
            let n = 1 + s.usize(3);
            bytes = [vec![b'+'; n], bytes].concat();
        }
        Some((c, bytes))
    }
    /// the first bytes of a request that will be complete only after stop `r`
    fn early(&mut self, s: &mut Src, r: &StopR, multi: bool) -> Result<Option<(Cmd, Vec<u8>)>, Fault> {
        let m = &mut self.m;
        let old = (m.mem_tid, m.mem_why, m.mem_set, m.res_why, m.res_tid, m.res_set, m.kind.clone());
        if let Some(t) = r.tid(multi) {
            m.mem_tid = t;
            m.mem_set = true;
            m.mem_why = p(13);
            m.res_why = p(13);
            m.res_tid = Some(t);
            m.res_set = true;
        }
        m.kind = MK::Idle;
        let c = self.gen_request(s);
        let m = &mut self.m;
        (m.mem_tid, m.mem_why, m.mem_set, m.res_why, m.res_tid, m.res_set, m.kind) = old;
        let Some((c, bytes)) = c else { return Ok(None) };
        let k = 1 + s.usize(bytes.len() - 1);
        let (seen, _) = self.step(Step::Bytes(bytes[..k].to_vec()), None)?;
        want!(p(1) | p(14), seen.out.is_empty() && seen.calls.is_empty() && seen.kind == Kind::Running, "early", "something happened before the packet {} was complete: {:?}", show(&bytes), seen);
        Ok(Some((c, bytes[k..].to_vec())))
    }
    fn request(&mut self, before: MK, c: Cmd, bytes: Vec<u8>) -> Result<Next, Fault> {
        let label = c.label;
        let mask = c.mask;
        self.fp = mix(self.fp, hash_bytes(&c.body));
        // what just happened and must not have influenced this request
        let after = self.after;
        let (seen, pkts) = match self.step(Step::Bytes(bytes), Some(self.m.acks)) {
            Ok(x) => x,
            Err(mut f) => {
                if let Some(Kind::Panicked(_)) = self.seen.last().map(|s| &s.kind) { f.mask |= p(2) }
                f.mask |= mask | after;
                f.msg = format!("{}: request {}: {}", label, show(&c.body), f.msg);
                f.sig = format!("{}:{}", label, f.sig);
                return Err(f);
            }
        };
        if !self.m.buf.fixed() { self.m.full = self.m.full.max(c.body.len() + 4) }
        let o = Obs { calls: &seen.calls, pkts, kind: seen.kind.clone(), before };
        if mask & self.plan.focus != 0 { self.focus_hits += 1 }
        let r = match self.query_failed(&o) { Some(r) => r, None => (c.judge)(&mut self.m, &o) };
        match r {
            Ok(()) => {}
            Err(mut f) => {
                if let Kind::Panicked(t) = &seen.kind { f.mask |= p(2); f.sig = "panic".into(); f.msg = format!("{} / {}", t, f.msg) }
                f.mask |= mask | after;
                // answered as unsupported although it is supported
                if o.pkts.len() == 1 && o.pkts[0].is_empty() { f.mask |= p(17) | p(18) }
                f.msg = format!("{}: request {} in state {:?}: {}\n  output {}\n  state {:?}", label, show(&c.body), o.before, f.msg, show(&seen.out), seen.kind);
                f.sig = format!("{}:{}", label, f.sig);
                return Err(f);
            }
        }
        self.after = 0;
        if label.contains("unsupported") || label == "unknown" { self.after |= p(18) }
        if seen.calls.iter().any(|c| c.err().is_some()) { self.after |= p(27) }
        Ok(Next::Go)
    }
    fn ctrlc(&mut self) -> Result<Next, Fault> {
        let idle = self.m.kind == MK::Idle;
        let (seen, pkts) = self.step(Step::Bytes(vec![3]), None)?;
        self.focus_hits += (self.plan.focus & p(14) != 0) as u64;
        if let Kind::Panicked(t) = &seen.kind { return fault(p(14) | p(2), "panic", t.clone()) }
        want!(p(14), seen.kind == Kind::CtrlC && pkts.is_empty() && seen.calls.is_empty(), "ctrl-c", "after Ctrl-C: {:?}", seen);
        self.m.kind = MK::CtrlC { idle };
        self.after = p(14);
        Ok(Next::Go)
    }
}

/// run a generated history and judge every step
pub fn history(s: &mut Src, ctx: &mut Ctx, plan: &Plan) -> Result<Hist, Fail> {
    let mut setup = Setup::gen(s, plan.tweak);
    (plan.setup)(s, &mut setup);
    let (st, cs) = setup.state();
    let stub = match mock_session(setup.bits, st.clone(), cs.clone(), &setup.buf) {
        Ok(x) => x,
        Err(e) => return fail("builder", format!("the builder refused a valid buffer: {}", e)),
    };
    ctx.note(|| setup.show());
    let m = setup.model(&st);
    let mut run = Run { plan, stub, st, cs, m, script: vec![], seen: vec![], focus_hits: 0, killed: false, after: 0, fp: hash_bytes(format!("{:?}", setup.cfg).as_bytes()) };
    let k0 = run.stub.kind();
    run.seen.push(Seen { out: run.cs.borrow().out.clone(), calls: run.st.borrow().log.clone(), kind: k0.clone() });
    let mut r: JR = Ok(());
    if !setup.cfg.sw() && !setup.cfg.on(F::Guard) {
        if !matches!(&k0, Kind::Dead(e) if !e.is_target && !e.is_conn) { r = fault(p(17), "guard-rail", format!("a target with neither software breakpoints nor the guard rail turned off was accepted: {:?}", k0)) }
        run.m.kind = MK::Gone;
    } else if k0 != Kind::Idle || run.cs.borrow().starts != 1 || !run.cs.borrow().out.is_empty() {
        r = fault(p(14), "start", format!("session start: {:?}, {} starts", k0, run.cs.borrow().starts));
    }
    if r.is_ok() {
        let long = s.big && s.chance(1, 3);
        let n = 1 + s.below(if long && s.huge { plan.ops * 50 } else if long { plan.ops * 15 } else { plan.ops });
        for _ in 0..n {
            ctx.work += 1;
            match run.next(s) {
                Ok(Next::Go) => {}
                Ok(Next::End) => break,
                Err(f) => { r = Err(f); break }
            }
        }
    }
    ctx.note(|| run.script.iter().map(|x| match x { Step::Bytes(b) => show(b), x => format!("{:?}", x) }).collect::<Vec<_>>().join(" ~ "));
    for x in &run.seen {
        ctx.digest(hash_bytes(&x.out));
        ctx.digest(hash_bytes(format!("{:?}", x.calls).as_bytes()));
        ctx.digest(hash_bytes(x.kind.name().as_bytes()));
    }
    if run.focus_hits > 0 { ctx.nontrivial(run.fp) }
    if let Some(Kind::Dead(e)) = run.seen.last().map(|s| &s.kind) { ctx.label(if e.is_target { "ended: target error" } else if e.is_conn { "ended: connection error" } else { "ended: protocol error" }) }
    if let Err(f) = r {
        if f.mask & plan.focus != 0 { return fail(f.sig, f.msg) }
        ctx.label(format!("off-focus:{}", f.sig));
    }
    Ok(Hist { setup, script: run.script, seen: run.seen, focus_hits: run.focus_hits })
}
