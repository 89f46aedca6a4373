//! Coverage-guided search over choice tapes (thorough tier): the bytes a fuzzer produces are decoded
//! into the tape of a case, the case is run and judged as any other one.

use crate::engine::*;
use std::sync::OnceLock;

/// two bytes per choice; 0xff.. introduces a full 64-bit one
pub fn decode(mut b: &[u8]) -> (u64, Vec<u64>) {
    let mut next = |n: usize| -> Option<u64> {
        if b.is_empty() { return None }
        let k = n.min(b.len());
        let mut x = [0; 8];
        x[..k].copy_from_slice(&b[..k]);
        b = &b[k..];
        Some(u64::from_le_bytes(x))
    };
    let idx = next(2).unwrap_or(0);
    let mut t = vec![];
    while let Some(v) = next(2) {
        t.push(if v >> 8 == 0xff { next(8).unwrap_or(0) } else { v });
        if t.len() >= 100_000 { break }
    }
    (idx, t)
}
pub fn encode(idx: u64, t: &[u64]) -> Vec<u8> {
    let mut v = (idx as u16).to_le_bytes().to_vec();
    for &x in t {
        if x >> 8 < 0xff { v.extend((x as u16).to_le_bytes()) } else { v.extend([0, 0xff]); v.extend(x.to_le_bytes()) }
    }
    v
}

struct State { p: Prop, stats: Option<std::path::PathBuf>, out: std::path::PathBuf, n: u64, nt: u64, known: std::collections::HashSet<String> }

pub fn one(data: &[u8]) {
    static STATE: OnceLock<std::sync::Mutex<State>> = OnceLock::new();
    let st = STATE.get_or_init(|| {
        install_panic_hook();
        let id = std::env::var("VFUZZ_ID").expect("VFUZZ_ID");
        let p = crate::props::all().into_iter().find(|p| p.id == id).expect("known property");
        let known = known_sigs(p.id);
        std::sync::Mutex::new(State { known, p, stats: std::env::var_os("VFUZZ_STATS").map(|x| x.into()), out: std::env::var_os("VFUZZ_OUT").expect("VFUZZ_OUT").into(), n: 0, nt: 0 })
    });
    let mut st = st.lock().unwrap_or_else(|e| e.into_inner());
    let (idx, tape) = decode(data);
    let mut src = Src::replay(tape.clone(), idx, false);
    // what a case needs beyond the tape is zero: no case may be endless
    let (fp, r) = run_once(&st.p, &mut src);
    st.n += 1;
    if fp { st.nt += 1 }
    if st.n % 256 == 0 { if let Some(f) = &st.stats { let _ = std::fs::write(f, format!("{} {}\n", st.n, st.nt)); } }
    if let Err(f) = r {
        if st.known.contains(&f.sig) { return }
        // hand the case over to the harness, which shrinks and reports it
        let text = format!("{} {}", idx, tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let _ = std::fs::write(&st.out, text);
        eprintln!("FAIL {}: {}", f.sig, f.msg);
        std::process::abort();
    }
}
