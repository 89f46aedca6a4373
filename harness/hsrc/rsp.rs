//! Client side of the remote serial protocol, written from the protocol documentation only.

use crate::engine::Src;

pub fn csum(b: &[u8]) -> u8 {
    b.iter().fold(0u8, |a, x| a.wrapping_add(*x))
}

pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 4);
    v.push(b'$');
    v.extend_from_slice(body);
    v.push(b'#');
    v.extend_from_slice(format!("{:02x}", csum(body)).as_bytes());
    v
}

/// frame with upper/lower case digits chosen by the source
pub fn frame_case(src: &mut Src, body: &[u8]) -> Vec<u8> {
    let mut v = frame(body);
    if src.chance(1, 4) {
        let n = v.len();
        v[n - 2..].make_ascii_uppercase();
    }
    v
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Tok {
    Ack,
    /// a packet: raw body (as sent), position of the end in the output
    Pkt { raw: Vec<u8>, end: usize },
}

/// strict tokenizer of the stub's output
pub fn tokenize(out: &[u8]) -> Result<Vec<Tok>, String> { tokenize2(out, false) }
/// `partial`: the last packet may be cut off
pub fn tokenize2(out: &[u8], partial: bool) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < out.len() {
        match out[i] {
            b'+' => { v.push(Tok::Ack); i += 1 }
            b'$' => {
                let start = i + 1;
                let mut j = start;
                loop {
                    match out.get(j) {
                        None if partial => return Ok(v),
                        None => return Err(format!("packet without '#': {}", show(&out[i..]))),
                        Some(b'#') => {
                            // a run-length count may not be '#', so this is the terminator
                            break;
                        }
                        Some(b'$') => return Err(format!("unescaped '$' inside a packet at offset {}: {}", j - start, show(&out[i..]))),
                        Some(_) => j += 1,
                    }
                }
                if partial && out.len() < j + 3 { return Ok(v) }
                let cs = out.get(j + 1..j + 3).ok_or_else(|| format!("packet without checksum: {}", show(&out[i..])))?;
                if !cs.iter().all(|c| c.is_ascii_hexdigit()) {
                    return Err(format!("checksum is not hex: {}", show(&out[i..j + 3])));
                }
                let got = u8::from_str_radix(std::str::from_utf8(cs).unwrap(), 16).unwrap();
                let want = csum(&out[start..j]);
                if got != want {
                    return Err(format!("bad checksum {:02x}, expected {:02x}: {}", got, want, show(&out[i..j + 3])));
                }
                v.push(Tok::Pkt { raw: out[start..j].to_vec(), end: j + 3 });
                i = j + 3;
            }
            b => return Err(format!("stray byte {:#04x} between packets at {}: {}", b, i, show(out))),
        }
    }
    Ok(v)
}

/// expand run-length encoding. `*` not preceded by a character or followed by an illegal count is an error.
pub fn rle_expand(raw: &[u8]) -> Result<Vec<u8>, String> {
    let mut o: Vec<u8> = Vec::with_capacity(raw.len());
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == b'*' {
            let last = *o.last().ok_or("run-length marker at the start of a packet")?;
            let c = *raw.get(i + 1).ok_or("run-length marker at the end of a packet")?;
            if !(0x20..=0x7e).contains(&c) || c == b'#' || c == b'$' {
                return Err(format!("illegal run-length count {:#04x} in {}", c, show(raw)));
            }
            let n = c as usize - 29;
            o.extend(std::iter::repeat(last).take(n));
            i += 2;
        } else {
            o.push(raw[i]);
            i += 1;
        }
    }
    Ok(o)
}

/// decode of `}` escapes in binary data
pub fn unescape(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'}' {
            o.push(*b.get(i + 1).ok_or("dangling escape")? ^ 0x20);
            i += 2;
        } else {
            if matches!(b[i], b'#' | b'$' | b'*') {
                return Err(format!("unescaped special byte {:#04x} in binary data", b[i]));
            }
            o.push(b[i]);
            i += 1;
        }
    }
    Ok(o)
}

/// escape binary data the way a client does (optionally over-escaping)
pub fn escape(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let over = src.chance(1, 6);
    let star = src.bool();
    let mut o = vec![];
    for &x in b {
        let must = matches!(x, b'#' | b'$' | b'}') || (star && x == b'*');
        if must || (over && x & 3 == 1) {
            o.push(b'}');
            o.push(x ^ 0x20);
        } else {
            o.push(x);
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(b: &[u8]) -> Result<Vec<u8>, String> {
    if b.len() % 2 != 0 { return Err(format!("odd number of hex digits: {}", show(b))) }
    b.chunks(2).map(|c| {
        let d = |x: u8| (x as char).to_digit(16).ok_or_else(|| format!("not hex: {}", show(b)));
        Ok((d(c[0])? * 16 + d(c[1])?) as u8)
    }).collect()
}

pub fn parse_hex(b: &[u8]) -> Result<u128, String> {
    if b.is_empty() || b.len() > 32 { return Err(format!("not a hex number: {}", show(b))) }
    let mut v = 0u128;
    for &x in b {
        v = v * 16 + (x as char).to_digit(16).ok_or_else(|| format!("not a hex number: {}", show(b)))? as u128;
    }
    Ok(v)
}

/// hex bytes with varying case
pub fn ehex(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut s = hex(b).into_bytes();
    match src.below(4) {
        0 | 1 => {}
        2 => s.make_ascii_uppercase(),
        _ => for (i, c) in s.iter_mut().enumerate() { if i % 3 == 1 { c.make_ascii_uppercase() } },
    }
    s
}

/// hex number with varying case / leading zeros
pub fn enumx(src: &mut Src, v: u128) -> Vec<u8> {
    let mut s = format!("{:x}", v);
    match src.below(6) {
        0..=2 => {}
        3 => s = format!("{:02x}", v),
        4 => s = s.to_uppercase(),
        _ => { let n = src.below(9) as usize; s = format!("{}{}", "0".repeat(n), s) }
    }
    s.into_bytes()
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(400) {
        if (0x20..0x7f).contains(&c) && c != b'\\' { s.push(c as char) } else { s.push_str(&format!("\\x{:02x}", c)) }
    }
    if b.len() > 400 { s.push_str(&format!("...({} bytes)", b.len())) }
    s
}
