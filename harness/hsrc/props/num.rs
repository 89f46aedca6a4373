//! P31: conversions between numbers and bytes, directly and through requests and replies.

use crate::engine::*;
use crate::rsp::show;
use gdbstub::internal::{BeBytes, LeBytes};

/// little-endian bytes of a value, from the crate under test's public traits against arithmetic
fn int<T>(s: &mut Src, c: &mut Ctx, name: &str, size: usize, v: T, value: u128) -> R
where T: BeBytes + LeBytes + PartialEq + Copy + std::fmt::Debug {
    let le: Vec<u8> = (0..size).map(|i| (value >> (8 * i)) as u8).collect();
    let be: Vec<u8> = le.iter().rev().copied().collect();
    let fill = s.raw() as u8;
    let n = s.usize(size * 2 + 3);
    c.note(|| format!("{} {:?} into {} bytes", name, v, n));
    for (what, want, big) in [("to_be_bytes", &be, true), ("to_le_bytes", &le, false)] {
        let mut buf = vec![fill; n];
        let r = match catch(|| { let r = if big { BeBytes::to_be_bytes(v, &mut buf) } else { LeBytes::to_le_bytes(v, &mut buf) }; (r, buf.clone()) }) { Ok(x) => x, Err(p) => return fail("panic", format!("{} of {} {:?} into {} bytes panics: {}", what, name, v, n, p)) };
        if n < size {
            check!(r.0.is_none(), "small-buffer", "{} of {} {:?} into {} bytes gives {:?}", what, name, v, n, r);
        } else {
            check!(r.0 == Some(size) && r.1[..size] == want[..] && r.1[size..].iter().all(|b| *b == fill), "encode", "{} of {} {:?} into {} bytes gives {:?}", what, name, v, n, r);
        }
    }
    let rb = <T as BeBytes>::from_be_bytes(&be);
    check!(rb == Some(v), "round-trip", "from_be_bytes of {} {} gives {:?}", name, show(&be), rb);
    let rl = <T as LeBytes>::from_le_bytes(&le);
    check!(rl == Some(v), "round-trip", "from_le_bytes of {} {} gives {:?}", name, show(&le), rl);
    Ok(())
}
/// any number of bytes: exact or refused
fn any<T>(s: &mut Src, c: &mut Ctx, name: &str, size: usize, of: fn(u128) -> T) -> R
where T: BeBytes + LeBytes + PartialEq + Copy + std::fmt::Debug {
    let n = match s.below(3) { 0 => size, 1 => s.usize(size + 1), _ => size + 1 + s.usize(20) };
    let mut sig = s.bytes_n(n); // most significant first
    match s.below(4) { 0 => {} , 1 => for b in sig.iter_mut().take(n.saturating_sub(size)) { *b = 0 }, 2 => { let z = s.usize(n + 1); for b in sig.iter_mut().take(z) { *b = 0 } } _ => { let z = s.usize(n + 1); for b in sig.iter_mut().rev().take(z) { *b = 0 } } }
    let fits = sig.iter().take(n.saturating_sub(size)).all(|b| *b == 0);
    let value = sig.iter().rev().take(size).enumerate().fold(0u128, |a, (i, b)| a | (*b as u128) << (8 * i));
    // the sign of a wider number is not defined
    if name.starts_with('i') && n > size && fits && value >> (8 * size - 1) & 1 == 1 { return Ok(()) }
    let want = fits.then(|| of(value));
    let le: Vec<u8> = sig.iter().rev().copied().collect();
    c.note(|| format!("{} from {}", name, show(&sig)));
    for (what, bytes, big) in [("from_be_bytes", &sig, true), ("from_le_bytes", &le, false)] {
        match catch(|| if big { <T as BeBytes>::from_be_bytes(bytes) } else { <T as LeBytes>::from_le_bytes(bytes) }) {
            Err(p) => return fail("panic", format!("{} of {} as {} panics: {}", what, show(bytes), name, p)),
            Ok(got) => check!(got == want, "decode", "{} of {} as {} gives {:?} instead of {:?}", what, show(bytes), name, got, want),
        }
    }
    c.label(if fits { "fits" } else { "does not fit" });
    Ok(())
}

pub fn p31(s: &mut Src, c: &mut Ctx) -> R {
    if s.idx % 3 != 0 { return super::hist::p31_hist(s, c) }
    macro_rules! go { ($($i:literal $t:ty),*) => { match s.idx / 3 % 12 { $($i => {
        let raw = match s.below(4) { 0 => s.num(64) as u128, 1 => (s.num(64) as u128) << 64 | s.num(64) as u128, 2 => u128::MAX - s.below(3) as u128, _ => 1u128 << s.below(128) };
        let v = raw as $t;
        int(s, c, stringify!($t), std::mem::size_of::<$t>(), v, v as u128)?;
        any(s, c, stringify!($t), std::mem::size_of::<$t>(), |v| v as $t)?;
        c.nontrivial(mix(raw as u64 ^ (raw >> 64) as u64, $i));
        c.label(stringify!($t));
    })* _ => unreachable!() } } }
    go!(0 u8, 1 u16, 2 u32, 3 u64, 4 u128, 5 usize, 6 i8, 7 i16, 8 i32, 9 i64, 10 i128, 11 isize);
    c.work += 1;
    Ok(())
}
