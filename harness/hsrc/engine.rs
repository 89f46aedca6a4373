//! Property-based testing engine: choice tapes, deterministic seeding, parallel execution in a
//! child process, shrinking, replay files and evidence.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// choice source

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(17);
    splitmix(&mut s)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

/// The choice tape. All randomness of a case comes from here.
pub struct Src {
    pub tape: Vec<u64>,
    pub pos: usize,
    rng: Option<u64>,
    /// index of the case (enumerated dimensions are derived from it)
    pub idx: u64,
    pub thorough: bool,
    /// generators use their large limits
    pub big: bool,
    /// a big case whose counts pass 256 and whose sizes may pass 64 KiB
    pub huge: bool,
}

impl Src {
    /// a limit on a size: the usual one, or the large one
    pub fn lim(&self, n: usize, big: usize) -> usize { if self.huge { if big < 100 { big * 8 } else { (big * 4).min(big.max(140_000)) } } else if self.big { big } else { n } }
    pub fn random(seed: u64, idx: u64, thorough: bool) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(seed), idx, thorough, big: false, huge: false }
    }
    pub fn replay(tape: Vec<u64>, idx: u64, thorough: bool) -> Src {
        Src { tape, pos: 0, rng: None, idx, thorough, big: false, huge: false }
    }
    pub fn raw(&mut self) -> u64 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(s) = &mut self.rng {
            let v = splitmix(s);
            self.tape.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    /// uniform in 0..n (n > 0); shrinks towards 0
    pub fn below(&mut self, n: u64) -> u64 {
        let r = self.raw();
        if n == 0 { 0 } else { r % n }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { self.raw(); return lo; }
        let span = hi - lo;
        if span == u64::MAX { return self.raw(); }
        lo + self.below(span + 1)
    }
    /// true with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut r = self.below(total.max(1));
        for (i, &w) in ws.iter().enumerate() {
            if r < w as u64 { return i; }
            r -= w as u64;
        }
        0
    }
    /// a u64 with many boundary values
    pub fn num(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(9) {
            8 => { let d = dict(); let v = d.ints[self.usize(d.ints.len())]; v.wrapping_add(self.below(3)).wrapping_sub(1) }
            0 => self.below(4),
            1 => self.below(256),
            2 => self.raw() >> (self.below(64)),
            3 => { let s = self.below(bits as u64); (1u64 << s).wrapping_sub(self.below(3)).wrapping_add(1) }
            4 => mask.wrapping_sub(self.below(4)),
            5 => self.raw() & 0x0101_0101_0101_0101u64.wrapping_mul(self.below(256)),
            6 => { // hex digits a..f mixed
                let r = self.raw(); (r & 0x0f0f_0f0f_0f0f_0f0f) | 0xa0b0_c0d0_e0f0_0a00 }
            _ => self.raw(),
        };
        v & mask
    }
    /// a length with a bias to small values and some boundaries
    pub fn len(&mut self, max: usize) -> usize {
        let max = max as u64;
        (match self.below(7) {
            6 => { let d = &dict().ints; let k = d.partition_point(|v| *v <= max + 1); (d[self.usize(k.max(1))] + self.below(3)).saturating_sub(1).min(max) }
            0 => self.below(3).min(max),
            1 | 2 => self.below(max.min(12) + 1),
            3 => self.below(max.min(80) + 1),
            4 => max - self.below(max.min(4) + 1),
            _ => self.below(max + 1),
        }) as usize
    }
    /// bytes of length exactly n, from one of several distributions
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        const SPECIAL: &[u8] = b"#$}*+-\x03:;,=|.%0xX\x00\xff\x7f\x80'\"~ {\n";
        let mode = self.below(10);
        let mut s = self.raw();
        let mut v = Vec::with_capacity(n);
        match mode {
            9 => { // words of the sources, joined
                let d = &dict().words;
                while v.len() < n {
                    v.extend(&d[(splitmix(&mut s) % d.len() as u64) as usize]);
                    if splitmix(&mut s) % 4 == 0 { v.push(SPECIAL[(splitmix(&mut s) % SPECIAL.len() as u64) as usize]) }
                }
                v.truncate(n);
            }
            0 => v.resize(n, b'a' + (s % 26) as u8),
            1 => while v.len() < n { v.push(b'a' + (splitmix(&mut s) % 26) as u8) },
            2 => while v.len() < n { v.push(splitmix(&mut s) as u8) },
            3 => while v.len() < n { v.push(SPECIAL[(splitmix(&mut s) % SPECIAL.len() as u64) as usize]) },
            4 => v.resize(n, s as u8),
            5 => { // runs
                while v.len() < n {
                    let b = splitmix(&mut s) as u8;
                    let l = 1 + splitmix(&mut s) % 20;
                    for _ in 0..l { if v.len() < n { v.push(b) } }
                }
            }
            6 => { // runs of specials / zeros
                while v.len() < n {
                    let r = splitmix(&mut s);
                    let b = if r & 1 == 0 { 0 } else { SPECIAL[(r as usize >> 1) % SPECIAL.len()] };
                    let l = 1 + splitmix(&mut s) % 130;
                    for _ in 0..l { if v.len() < n { v.push(b) } }
                }
            }
            7 => for i in 0..n { v.push((s as u8).wrapping_add(i as u8)) },
            _ => { // literal choices (shrink well)
                if n <= 16 { for _ in 0..n { v.push(self.raw() as u8) } }
                else { while v.len() < n { v.push(0x20 + (splitmix(&mut s) % 95) as u8) } }
            }
        }
        v
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        self.bytes_n(n)
    }
}

// ---------------------------------------------------------------------------------------------
// dictionary: the integers and string literals of the sources under test, which bias the generators

pub struct Dict { pub ints: Vec<u64>, pub words: Vec<Vec<u8>> }
/// sorted; never empty. Powers of two and a few words are always in it.
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut ints: std::collections::BTreeSet<u64> = (0..64).map(|i| 1u64 << i).collect();
        let mut words: std::collections::BTreeSet<Vec<u8>> = [&b"OK"[..], b"E01", b"-1", b"all", b"target.xml"].iter().map(|w| w.to_vec()).collect();
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let mut todo: Vec<std::path::PathBuf> = vec![format!("{}/src", root).into()];
        while let Some(d) = todo.pop() {
            let Ok(es) = std::fs::read_dir(&d) else { continue };
            for e in es.flatten() {
                let p = e.path();
                if p.is_dir() { todo.push(p); continue }
                if p.extension().map_or(true, |x| x != "rs") { continue }
                let text = std::fs::read_to_string(&p).unwrap_or_default();
                for line in text.lines().filter(|l| !l.trim_start().starts_with("//")) { scan(line, &mut ints, &mut words) }
            }
        }
        Dict { ints: ints.into_iter().collect(), words: words.into_iter().collect() }
    })
}
fn scan(line: &str, ints: &mut std::collections::BTreeSet<u64>, words: &mut std::collections::BTreeSet<Vec<u8>>) {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            let s = i + 1;
            let mut j = s;
            while j < b.len() && b[j] != b'"' { j += if b[j] == b'\\' { 2 } else { 1 } }
            if j < b.len() && (1..=40).contains(&(j - s)) && !b[s..j].contains(&b'\\') && !b[s..j].contains(&b'{') { words.insert(b[s..j].to_vec()); }
            i = j + 1;
        } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
            let t: String = line[s..i].chars().filter(|c| *c != '_').collect();
            let t = ["usize", "u8", "u16", "u32", "u64", "u128", "i32", "i64"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t);
            let v = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16) } else if let Some(h) = t.strip_prefix("0b") { u64::from_str_radix(h, 2) } else { t.parse() };
            if let Ok(v) = v { ints.insert(v); }
        } else { i += 1 }
    }
}

// ---------------------------------------------------------------------------------------------
// case context

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return $crate::engine::fail($sig, format!($($a)*)); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub fingerprint: Option<u64>,
    pub want_sample: bool,
    pub sample: String,
    pub digest: u64,
    pub work: u64,
}
impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        let l = l.into();
        if !self.labels.contains(&l) { self.labels.push(l) }
    }
    pub fn nontrivial(&mut self, fp: u64) {
        self.fingerprint = Some(mix(self.fingerprint.unwrap_or(0), fp));
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.len() < 1500 {
            let s = f();
            if !self.sample.is_empty() { self.sample.push_str(" | "); }
            self.sample.push_str(&s);
        }
    }
    pub fn digest(&mut self, h: u64) {
        self.digest = mix(self.digest, h);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> R,
    /// known, recorded findings: (signature, what fails, probe returning true while it still fails)
    pub findings: &'static [(&'static str, &'static str, fn() -> bool)],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------------------------------------
// running one case

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        let in_case = IN_CASE.with(|c| c.get());
        PANIC_MSG.with(|p| *p.borrow_mut() = m.clone());
        if !in_case { eprintln!("{}", m); }
    }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

fn panic_sig(m: &str) -> String {
    // keep the location line without the line number
    let line = m.lines().next().unwrap_or("").trim_end_matches(':');
    let loc = line.strip_prefix("panicked at ").unwrap_or(line);
    let file = loc.split(':').next().unwrap_or("");
    format!("panic:{}", file)
}

fn run_case(p: &Prop, src: &mut Src, want_sample: bool) -> (Ctx, R) {
    let mut ctx = Ctx { want_sample, ..Default::default() };
    let r = match catch(|| (p.run)(src, &mut ctx)) {
        Ok(r) => r,
        Err(m) => Err(Fail { sig: panic_sig(&m), msg: format!("panic: {}", m) }),
    };
    (ctx, r)
}

/// one case outside the usual loops: (non-trivial?, verdict)
pub fn run_once(p: &Prop, src: &mut Src) -> (bool, R) {
    let (ctx, r) = run_case(p, src, false);
    (ctx.fingerprint.is_some(), r)
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(id.as_bytes())), idx)
}

// ---------------------------------------------------------------------------------------------
// shrinking

pub fn shrink(tape: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = tape;
    let mut left = budget;
    let start = Instant::now();
    let mut out = |b: &[u64], left: &mut usize| -> bool {
        if *left == 0 || start.elapsed() > Duration::from_secs(45) { *left = 0; return false; }
        *left -= 1;
        fails(b)
    };
    loop {
        let before = best.clone();
        // truncate
        let mut cut = best.len() / 2;
        while cut > 0 && left > 0 {
            if best.len() >= cut {
                let c = best[..best.len() - cut].to_vec();
                if out(&c, &mut left) { best = c; continue; }
            }
            cut /= 2;
        }
        // delete chunks
        for &k in &[64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() && left > 0 {
                let mut c = best.clone();
                c.drain(i..i + k);
                if out(&c, &mut left) { best = c } else { i += k.max(1) }
            }
        }
        // zero, then shrink values
        for i in 0..best.len() {
            if left == 0 { break }
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if out(&c, &mut left) { best = c; continue }
                let mut c = best.clone();
                c[i] = best[i] % 1024;
                if c[i] != best[i] && out(&c, &mut left) { best = c }
                while best[i] > 0 && left > 0 {
                    let mut c = best.clone();
                    c[i] = best[i] / 2;
                    if out(&c, &mut left) { best = c; continue }
                    let mut c = best.clone();
                    c[i] = best[i] - 1;
                    if best[i] < 4096 && out(&c, &mut left) { best = c; continue }
                    break;
                }
            }
        }
        while best.last() == Some(&0) { best.pop(); }
        if best == before || left == 0 { return best }
    }
}

// ---------------------------------------------------------------------------------------------
// results

#[derive(Default)]
pub struct Agg {
    pub evaluations: u64,
    pub fps: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub work: u64,
    /// (idx, fail, tape)
    pub failure: Option<(u64, Fail, Vec<u64>)>,
    pub known: BTreeMap<String, u64>,
    pub digest: u64,
    /// the longest time one case took, in ms, and its index
    pub slowest: (u64, u64),
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn known_sigs(id: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            // finding: property=P12 sig=<sig> <text>
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.split_whitespace();
                if it.next() == Some(&format!("property={}", id)) {
                    if let Some(s) = it.next().and_then(|s| s.strip_prefix("sig=")) {
                        out.insert(s.to_string());
                    }
                }
            }
        }
    }
    out
}

pub fn nworkers() -> usize {
    std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
}

/// progress file: one u64 slot (idx+1) per worker, so that a parent can pin an abort down
struct Progress {
    f: Option<std::fs::File>,
}
impl Progress {
    fn set(&self, worker: usize, idx1: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.f {
            let _ = f.write_all_at(&idx1.to_le_bytes(), (worker * 8) as u64);
        }
    }
}

pub fn run_all(p: &Prop, seed: u64, thorough: bool, total: u64, progress: Option<&Path>) -> Agg {
    let known = known_sigs(p.id);
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let agg = Mutex::new(Agg::default());
    let n = nworkers();
    let prog = Progress { f: progress.map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).unwrap()) };
    let done = AtomicBool::new(false);
    let current: Vec<(AtomicU64, AtomicU64)> = (0..n).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let epoch = Instant::now();
    std::thread::scope(|s| {
        // watchdog: a case that takes very long is an error of the check, not a violation
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = epoch.elapsed().as_millis() as u64;
                for (i, (st, idx)) in current.iter().enumerate() {
                    let st = st.load(Ordering::Relaxed);
                    if st != 0 && now.saturating_sub(st) > 60_000 {
                        eprintln!("watchdog: case {} of {} did not finish (worker {})", idx.load(Ordering::Relaxed), p.id, i);
                        std::process::exit(3);
                    }
                }
            }
        });
        let mut hs = vec![];
        for w in 0..n {
            let (next, stop_at, agg, prog, known, current, epoch) = (&next, &stop_at, &agg, &prog, &known, &current, &epoch);
            hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let mut local = Agg::default();
                loop {
                    let base = next.fetch_add(16, Ordering::Relaxed);
                    if base >= total { break }
                    for idx in base..(base + 16).min(total) {
                        if idx > stop_at.load(Ordering::Relaxed) { break }
                        prog.set(w, idx + 1);
                        current[w].1.store(idx, Ordering::Relaxed);
                        current[w].0.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut src = Src::random(case_seed(seed, p.id, idx), idx, thorough);
                        // samples: a few spread over the run
                        let want = idx % (total / 6).max(1) == (total / 12).min(3);
                        let (ctx, r) = run_case(p, &mut src, want);
                        let ms = (epoch.elapsed().as_millis() as u64 + 1).saturating_sub(current[w].0.swap(0, Ordering::Relaxed));
                        local.slowest = local.slowest.max((ms, idx));
                        local.evaluations += 1;
                        local.work += ctx.work;
                        local.digest ^= mix(ctx.digest, idx);
                        for l in ctx.labels { *local.labels.entry(l).or_insert(0) += 1 }
                        if let Some(fp) = ctx.fingerprint { local.fps.insert(fp); }
                        if want && ctx.fingerprint.is_some() && !ctx.sample.is_empty() {
                            local.samples.push(format!("case {}: {}", idx, ctx.sample));
                        }
                        if let Err(f) = r {
                            if known.contains(&f.sig) {
                                *local.known.entry(f.sig).or_insert(0) += 1;
                            } else if local.failure.as_ref().map_or(true, |x| idx < x.0) {
                                local.failure = Some((idx, f, src.tape.clone()));
                                stop_at.fetch_min(idx, Ordering::Relaxed);
                            }
                        }
                    }
                }
                prog.set(w, 0);
                let mut a = agg.lock().unwrap();
                a.evaluations += local.evaluations;
                a.work += local.work;
                a.slowest = a.slowest.max(local.slowest);
                a.digest ^= local.digest;
                a.fps.extend(local.fps);
                a.samples.extend(local.samples);
                for (k, v) in local.labels { *a.labels.entry(k).or_insert(0) += v }
                for (k, v) in local.known { *a.known.entry(k).or_insert(0) += v }
                if let Some(f) = local.failure {
                    if a.failure.as_ref().map_or(true, |x| f.0 < x.0) { a.failure = Some(f) }
                }
            }).unwrap());
        }
        for h in hs { let _ = h.join(); }
        done.store(true, Ordering::Relaxed);
    });
    agg.into_inner().unwrap()
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
}
impl Env {
    pub fn read() -> Env {
        Env {
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        }
    }
}

pub fn total_cases(p: &Prop, thorough: bool) -> u64 {
    let t = if thorough { p.thorough } else { p.quick };
    let pct: u64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    (t * pct / 100).max(1)
}

pub fn write_replay(id: &str, env: &Env, idx: u64, fail: &Fail, tape: &[u64], sample: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", id));
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": {},\n \"seed\": {},\n \"thorough\": {},\n \"idx\": {},\n \"signature\": {},\n \"message\": {},\n \"case\": {},\n \"tape\": [{}]\n}}\n",
        jstr(id), env.seed, env.thorough, idx, jstr(&fail.sig), jstr(&fail.msg), jstr(sample),
        tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    std::fs::write(&path, o).unwrap();
    path
}

pub fn read_replay(path: &Path) -> (u64, bool, Vec<u64>) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let num = |key: &str| -> String {
        let k = format!("\"{}\":", key);
        let i = t.rfind(&k).expect(key) + k.len();
        t[i..].trim_start().chars().take_while(|c| c.is_alphanumeric()).collect()
    };
    let idx = num("idx").parse().unwrap();
    let th = num("thorough") == "true";
    let i = t.rfind("\"tape\": [").unwrap() + 9;
    let j = t[i..].find(']').unwrap() + i;
    let tape = t[i..j].split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    (idx, th, tape)
}

pub fn write_evidence(p: &Prop, env: &Env, agg: &Agg, wall: f64, violations: u64, extra: &str) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut o = String::new();
    let mut samples = agg.samples.clone();
    samples.sort();
    samples.truncate(6);
    if samples.is_empty() { samples.push("(no non-trivial sample was drawn)".into()) }
    let _ = write!(o, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"work_units\": {},\n",
        jstr(p.id), jstr(if env.thorough { "thorough" } else { "quick" }), env.seed, agg.evaluations, agg.fps.len(), jstr(p.rule), agg.work);
    let _ = write!(o, "  \"classes\": {{{}}},\n", agg.labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "  \"known_findings_hit\": {{{}}},\n", agg.known.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    if !extra.is_empty() { let _ = write!(o, "  {},\n", extra); }
    let _ = write!(o, "  \"samples\": [\n   {}\n  ]\n }},\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(o, " \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "), violations, wall);
    std::fs::write(dir.join(format!("{}.json", p.id)), o).unwrap();
}

// ---------------------------------------------------------------------------------------------
// entry points

fn report_violation(p: &Prop, env: &Env, idx: u64, f: &Fail, tape: &[u64], sample: &str) {
    let path = write_replay(p.id, env, idx, f, tape, sample);
    println!("failure signature: {}", f.sig);
    println!("{}", f.msg);
    if !sample.is_empty() { println!("case: {}", sample); }
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// child: run everything in this process
fn child_main(p: &Prop, env: &Env, progress: &Path) -> i32 {
    let t0 = Instant::now();
    for (sig, what, probe) in p.findings {
        match catch(*probe) {
            Ok(true) => println!("KNOWN-FINDING: property={} sig={} {}", p.id, sig, what),
            Ok(false) => println!("note: recorded finding {} no longer occurs", sig),
            Err(m) => println!("note: probe of {} panicked: {}", sig, m),
        }
    }
    let total = total_cases(p, env.thorough);
    let agg = run_all(p, env.seed, env.thorough, total, Some(progress));
    if let Some((idx, f, tape)) = &agg.failure {
        let sig = f.sig.clone();
        // if shrinking itself gets stuck, report what there is
        write_evidence(p, env, &agg, t0.elapsed().as_secs_f64(), 1, "");
        let path = write_replay(p.id, env, *idx, f, tape, "");
        let id = p.id;
        let msg = f.msg.clone();
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(120));
            println!("{}\nVIOLATION property={} replay={}", msg, id, path.display());
            std::process::exit(1);
        });
        let small = if std::env::var_os("VERIF_NOSHRINK").is_some() { tape.clone() } else { shrink(tape.clone(), 3000, |t| {
            let mut s = Src::replay(t.to_vec(), *idx, env.thorough);
            matches!(run_case(p, &mut s, false).1, Err(f2) if f2.sig == sig)
        }) };
        let mut s = Src::replay(small.clone(), *idx, env.thorough);
        let (ctx, r) = run_case(p, &mut s, true);
        let (f2, tape2) = match r { Err(f2) => (f2, small), Ok(()) => (f.clone(), tape.clone()) };
        write_evidence(p, env, &agg, t0.elapsed().as_secs_f64(), 1, "");
        report_violation(p, env, *idx, &f2, &tape2, &ctx.sample);
        return 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p, env, &agg, wall, 0, "");
    println!("{}: {} cases, {} distinct non-trivial, {} work units, {:.1}s, slowest case {} ms, digest {:016x}", p.id, agg.evaluations, agg.fps.len(), agg.work, wall, agg.slowest.0, agg.digest);
    0
}

fn spawn_self(args: &[String]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(args);
    c
}

fn tmpfile(tag: &str) -> PathBuf {
    std::env::temp_dir().join(format!("vharness-{}-{}", std::process::id(), tag))
}

/// a second build of the same harness must behave identically on every case
fn compare(p: &Prop, env: &Env, other: &Path) -> i32 {
    let total = total_cases(p, env.thorough).min(if env.thorough { 4_000_000 } else { 400_000 });
    let run = |bin: &Path, mode: &str, a: &[u64]| -> (Option<i32>, String) {
        let mut args = vec![mode.to_string(), p.id.to_string()];
        args.extend(a.iter().map(|x| x.to_string()));
        match std::process::Command::new(bin).args(&args).output() {
            Ok(o) => (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned()),
            Err(e) => { eprintln!("{}: {}", bin.display(), e); (Some(99), String::new()) }
        }
    };
    let me = std::env::current_exe().unwrap();
    let (a, b) = (run(&me, "--digest", &[total]), run(other, "--digest", &[total]));
    if a.0 == Some(99) || b.0 == Some(99) { return 5 }
    if a.0 == Some(0) && a == b {
        println!("{}: the build with checked accesses behaves identically on {} cases ({})", p.id, total, a.1.trim());
        add_extra(p.id, "identical_in_checked_build", total);
        return 0;
    }
    // find the first differing case
    let mut from = 0;
    while from < total {
        let to = (from + 5000).min(total);
        let (a, b) = (run(&me, "--case-digests", &[to, from]), run(other, "--case-digests", &[to, from]));
        if a != b {
            let diff = a.1.lines().zip(b.1.lines()).position(|(x, y)| x != y).unwrap_or(a.1.lines().count().min(b.1.lines().count()));
            let idx = from + diff as u64;
            let mut src = Src::random(case_seed(env.seed, p.id, idx), idx, env.thorough);
            let (ctx, _) = run_case(p, &mut src, true);
            let f = Fail { sig: "checked-build-differs".into(), msg: format!("case {} behaves differently (or not at all) in the build with checked accesses: {:?} / {:?}", idx, a.1.lines().nth(diff), b.1.lines().nth(diff)) };
            report_violation(p, env, idx, &f, &src.tape, &ctx.sample);
            return 1;
        }
        from = to;
    }
    eprintln!("the two builds differ as a whole but in no single case: {:?} {:?}", a, b);
    5
}
fn add_extra(id: &str, key: &str, v: u64) {
    let path = verif_dir().join("evidence").join(format!("{}.json", id));
    if let Ok(t) = std::fs::read_to_string(&path) {
        let _ = std::fs::write(&path, t.replacen("\"work_units\":", &format!("\"{}\": {},\n  \"work_units\":", key, v), 1));
    }
}

/// parent: run the child, turn an abort of the child into a reproducible failure
fn parent_main(p: &Prop, env: &Env) -> i32 {
    let progress = tmpfile("progress");
    let st = spawn_self(&["--child".into(), p.id.into(), progress.display().to_string()]).status().unwrap();
    let code = st.code();
    if let Some(c) = code {
        if c == 0 || c == 1 {
            let _ = std::fs::remove_file(&progress);
            if c == 0 { if let Some(other) = std::env::var_os("VERIF_OTHER_BIN") { return compare(p, env, &PathBuf::from(other)) } }
            return c;
        }
    }
    use std::os::unix::process::ExitStatusExt;
    if st.signal() == Some(9) {
        eprintln!("child was killed (out of memory?)");
        let _ = std::fs::remove_file(&progress);
        return 4;
    }
    // the child aborted, or a case did not come back: find the case
    let hung = code == Some(3);
    let raw = std::fs::read(&progress).unwrap_or_default();
    let _ = std::fs::remove_file(&progress);
    let mut cands: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&x| x > 0).map(|x| x - 1).collect();
    cands.sort();
    let tf = tmpfile("tape");
    for idx in cands {
        // regenerate the tape by running with a recording source in a subprocess
        let aborts = |tape: Option<&[u64]>| -> bool {
            let mut args = vec!["--one".to_string(), p.id.to_string(), idx.to_string()];
            if let Some(t) = tape {
                std::fs::write(&tf, t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
                args.push(tf.display().to_string());
            }
            let mut ch = spawn_self(&args).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
            let t = Instant::now();
            loop {
                if let Some(o) = ch.try_wait().unwrap() { return !hung && o.signal().is_some() && o.signal() != Some(9) }
                if t.elapsed() > Duration::from_secs(if tape.is_some() { 6 } else { 40 }) { let _ = ch.kill(); let _ = ch.wait(); return hung }
                std::thread::sleep(Duration::from_millis(1));
            }
        };
        if aborts(None) {
            // an unshrunk tape: long random tape is equivalent to the recorded one
            let mut s = case_seed(env.seed, p.id, idx);
            let tape: Vec<u64> = (0..20000).map(|_| splitmix(&mut s)).collect();
            let small = if aborts(Some(&tape)) { shrink(tape, if hung { 60 } else { 250 }, |t| aborts(Some(t))) } else { vec![] };
            let f = if hung { Fail { sig: "hang".into(), msg: format!("case {} does not come back", idx) } } else { Fail { sig: "abort".into(), msg: format!("the process aborted (signal {:?}) while running case {}: undefined behaviour check or abort in the code under test", st.signal(), idx) } };
            let _ = std::fs::remove_file(&tf);
            let agg = Agg { evaluations: idx + 1, ..Default::default() };
            write_evidence(p, env, &agg, 0.0, 1, "");
            report_violation(p, env, idx, &f, &small, "");
            return 1;
        }
    }
    let _ = std::fs::remove_file(&tf);
    if hung { return 3 }
    eprintln!("child ended abnormally ({:?}) and the failure could not be reproduced", st);
    5
}

pub fn main(props: &[Prop]) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = Env::read();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    match args.first().map(|s| s.as_str()) {
        Some("--child") => child_main(find(&args[1]), &env, Path::new(&args[2])),
        Some("--one") => {
            let p = find(&args[1]);
            let idx: u64 = args[2].parse().unwrap();
            let mut src = match args.get(3) {
                Some(f) => Src::replay(std::fs::read_to_string(f).unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(), idx, env.thorough),
                None => Src::random(case_seed(env.seed, p.id, idx), idx, env.thorough),
            };
            let (ctx, r) = run_case(p, &mut src, true);
            println!("{:?}\n{:?}\n{}", r, ctx.labels, ctx.sample);
            r.is_err() as i32
        }
        Some("--digest") => {
            let p = find(&args[1]);
            let total: u64 = args[2].parse().unwrap();
            // one line per case
            let agg = run_all(p, env.seed, env.thorough, total, None);
            println!("{:016x} {}", agg.digest, agg.evaluations);
            agg.failure.is_some() as i32
        }
        Some("--case-digests") => {
            let p = find(&args[1]);
            let total: u64 = args[2].parse().unwrap();
            let out = std::io::stdout();
            let mut out = std::io::BufWriter::new(out.lock());
            let from: u64 = args.get(3).and_then(|a| a.parse().ok()).unwrap_or(0);
            for idx in from..total {
                let mut src = Src::random(case_seed(env.seed, p.id, idx), idx, env.thorough);
                let (ctx, _) = run_case(p, &mut src, false);
                writeln!(out, "{} {:016x}", idx, ctx.digest).unwrap();
            }
            0
        }
        Some("--sigs") => {
            // exploration aid: histogram of failure signatures
            let p = find(&args[1]);
            let total: u64 = args[2].parse().unwrap();
            let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            for idx in 0..total {
                let mut src = Src::random(case_seed(env.seed, p.id, idx), idx, env.thorough);
                if let (_, Err(f)) = run_case(p, &mut src, false) {
                    let e = m.entry(f.sig.clone()).or_insert((0, idx, f.msg.clone()));
                    e.0 += 1;
                    if f.msg.len() < e.2.len() { *e = (e.0, idx, f.msg) }
                }
            }
            for (k, v) in m { println!("{:6} {} (case {})\n   {}", v.0, k, v.1, v.2.chars().take(700).collect::<String>()) }
            0
        }
        Some("--fuzz-seeds") => { // starting corpus of the coverage-guided search: random cases
            let (p, dir) = (find(&args[1]), Path::new(&args[2]));
            let n: u64 = args[3].parse().unwrap();
            let mut kept = 0;
            for idx in 0..n * 20 {
                if kept == n { break }
                let mut src = Src::random(case_seed(env.seed ^ 0xf022, p.id, idx), idx, false);
                if run_once(p, &mut src).0 && src.tape.len() < 2500 { kept += 1; std::fs::write(dir.join(format!("{}", idx)), crate::fuzz::encode(idx, &src.tape)).unwrap(); }
            }
            0
        }
        Some("--tape") => { // a failing case found elsewhere ("idx choice,choice,..."): shrink and report it
            let p = find(&args[1]);
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let (a, b) = text.trim().split_once(' ').unwrap();
            let idx: u64 = a.parse().unwrap();
            let tape: Vec<u64> = b.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let env = Env { thorough: false, ..env };
            let Err(f) = run_case(p, &mut Src::replay(tape.clone(), idx, false), false).1 else { println!("passes"); return 0 };
            if known_sigs(p.id).contains(&f.sig) { println!("known"); return 0 }
            let small = shrink(tape, 3000, |t| matches!(run_case(p, &mut Src::replay(t.to_vec(), idx, false), false).1, Err(f2) if f2.sig == f.sig));
            let (ctx, r) = run_case(p, &mut Src::replay(small.clone(), idx, false), true);
            report_violation(p, &env, idx, &r.err().unwrap_or(f), &small, &ctx.sample);
            1
        }
        Some("--add-extra") => { add_extra(&args[1], &args[2], args[3].parse().unwrap()); 0 }
        Some("--replay") => {
            let p = find(&args[1]);
            let (idx, th, tape) = read_replay(Path::new(&args[2]));
            let mut src = Src::replay(tape, idx, th);
            let (ctx, r) = run_case(p, &mut src, true);
            println!("case: {}", ctx.sample);
            match r {
                Ok(()) => { println!("replay passes"); 0 }
                Err(f) => {
                    println!("failure signature: {}\n{}", f.sig, f.msg);
                    println!("VIOLATION property={} replay={}", p.id, args[2]);
                    1
                }
            }
        }
        Some("--list") => { for p in props { println!("{}", p.id) } 0 }
        Some(id) => parent_main(find(id), &env),
        None => { eprintln!("usage: vcheckbin <ID> | --replay <ID> <file> | --list"); 2 }
    }
}
