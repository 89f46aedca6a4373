//! P36: real TCP and Unix sockets.

use crate::engine::*;
use gdbstub::conn::{Connection, ConnectionExt};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::time::{Duration, Instant};

type E = std::io::Error;

trait Peer: Read + Write + Send { fn half_close(&self); fn dup(&self) -> Box<dyn Peer>; }
impl Peer for TcpStream { fn half_close(&self) { let _ = self.shutdown(std::net::Shutdown::Write); } fn dup(&self) -> Box<dyn Peer> { Box::new(self.try_clone().unwrap()) } }
impl Peer for UnixStream { fn half_close(&self) { let _ = self.shutdown(std::net::Shutdown::Write); } fn dup(&self) -> Box<dyn Peer> { Box::new(self.try_clone().unwrap()) } }

thread_local! { static LISTENER: Option<TcpListener> = TcpListener::bind("127.0.0.1:0").ok(); }

const LIMIT: Duration = Duration::from_secs(8);
fn tcp() -> Option<(TcpStream, TcpStream)> {
    LISTENER.with(|l| {
        let l = l.as_ref()?;
        let a = TcpStream::connect(l.local_addr().ok()?).ok()?;
        let want = a.local_addr().ok()?;
        loop { let (b, from) = l.accept().ok()?; if from == want { return Some((a, b)) } }
    })
}
extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
    fn getsockopt(fd: i32, level: i32, name: i32, val: *mut i32, len: *mut u32) -> i32;
}
/// the stub's end of the connection (valid while the connection lives), and whether it is TCP
#[derive(Clone, Copy)]
struct Fd(i32, bool);
impl Fd {
    fn sndbuf(self, n: i32) { let _ = unsafe { setsockopt(self.0, 1, 7, &n, 4) }; }
    fn nodelay(self) -> Option<bool> { let (mut v, mut l) = (0, 4); (unsafe { getsockopt(self.0, 6, 1, &mut v, &mut l) } == 0).then_some(v != 0) }
}
fn pair(s: &mut Src, c: &mut Ctx, nb: bool) -> (Box<dyn ConnectionExt<Error = E>>, Box<dyn Peer>, Fd) {
    if s.chance(2, 5) {
        if let Some((a, b)) = tcp() {
            c.label("TCP");
            // never hang: what should not block for long is bounded, and then fails
            for x in [&a, &b] { let _ = x.set_read_timeout(Some(LIMIT)); let _ = x.set_write_timeout(Some(LIMIT)); }
            let (a, b) = if s.bool() { (a, b) } else { (b, a) };
            let _ = a.set_nonblocking(nb);
            let fd = Fd(a.as_raw_fd(), true);
            return (Box::new(a), Box::new(b), fd);
        }
    }
    c.label("Unix");
    let (a, b) = UnixStream::pair().expect("socketpair");
    for x in [&a, &b] { let _ = x.set_read_timeout(Some(LIMIT)); let _ = x.set_write_timeout(Some(LIMIT)); }
    let _ = a.set_nonblocking(nb);
    let fd = Fd(a.as_raw_fd(), false);
    (Box::new(a), Box::new(b), fd)
}

#[derive(Debug, Clone)]
enum Op {
    /// the client sends
    Send(Vec<u8>),
    /// the client sends after a while, from another thread
    Later(u64, Vec<u8>),
    Read(usize),
    Peek(usize),
    /// replies: byte by byte or at once
    Write(Vec<u8>),
    WriteAll(Vec<u8>),
    /// a reply larger than any socket buffer, to a client that takes its time
    Huge(usize, u64),
    Flush,
    Recv,
}

pub fn p36(s: &mut Src, c: &mut Ctx) -> R {
    let mut ops = vec![];
    for _ in 0..1 + s.usize(14) {
        ops.push(match s.below(40) {
            0..=7 => { let n = if s.chance(1, 8) { s.usize(4000) } else { 1 + s.usize(6) }; Op::Send(s.bytes_n(n)) }
            8 | 9 => { let d = s.below(3); Op::Later(d, s.bytes_n(1)) }
            10..=17 => Op::Read(1 + s.usize(6)),
            18..=27 => Op::Peek(1 + s.usize(3)),
            28..=30 => { let n = s.usize(12); Op::Write(s.bytes_n(n)) }
            31..=34 => { let n = if s.chance(1, 8) { s.usize(9000) } else { s.usize(40) }; Op::WriteAll(s.bytes_n(n)) }
            35 => Op::Huge(300_000 + s.usize(900_000), s.below(4)),
            36 => Op::Flush,
            _ => Op::Recv,
        });
    }
    // the user may have accepted the connection in non-blocking mode: reading blocks all the same
    let nb = s.chance(1, 10);
    let (mut conn, mut peer, fd) = pair(s, c, nb);
    c.note(|| format!("{:?}", ops.iter().map(|o| match o { Op::Send(b) => format!("client sends {}", b.len()), Op::Later(d, _) => format!("client sends 1 in {} ms", d), Op::Read(n) => format!("read {}", n), Op::Peek(n) => format!("peek {}x", n), Op::Write(b) => format!("write {}", b.len()), Op::WriteAll(b) => format!("write_all {}", b.len()), Op::Huge(n, d) => format!("write_all {} to a client reading in {} ms", n, d), Op::Flush => "flush".into(), Op::Recv => "client reads".into() }).collect::<Vec<_>>()));
    let mut raw: Box<dyn ConnectionExt<Error = E>> = match s.below(2) { 0 => conn, _ => { c.label("through a reference"); let r: &'static mut dyn ConnectionExt<Error = E> = unsafe { &mut *(&mut *conn as *mut dyn ConnectionExt<Error = E>) }; struct Keep(&'static mut dyn ConnectionExt<Error = E>, #[allow(dead_code)] Box<dyn ConnectionExt<Error = E>>); impl Connection for Keep { type Error = E; fn write(&mut self, b: u8) -> Result<(), E> { self.0.write(b) } fn write_all(&mut self, b: &[u8]) -> Result<(), E> { self.0.write_all(b) } fn flush(&mut self) -> Result<(), E> { self.0.flush() } fn on_session_start(&mut self) -> Result<(), E> { self.0.on_session_start() } } impl ConnectionExt for Keep { fn read(&mut self) -> Result<u8, E> { self.0.read() } fn peek(&mut self) -> Result<Option<u8>, E> { self.0.peek() } } Box::new(Keep(r, conn)) } };
    let conn = &mut *raw;
    let io = |what: &str, e: E| Fail { sig: format!("{}-error", what.split(' ').next().unwrap()), msg: format!("{}: {:?} ({})", what, e.kind(), e) };
    conn.on_session_start().map_err(|e| io("on_session_start", e))?;
    if fd.1 { if let Some(on) = fd.nodelay() { check!(on, "nodelay", "a started TCP session holds small replies back (Nagle's algorithm is on)") } }
    // what the client has sent and the stub has not read; what the stub has written and the client has not read
    let mut down: std::collections::VecDeque<u8> = Default::default();
    let mut up: Vec<u8> = vec![];
    let mut interleaved = 0;
    fn peek(conn: &mut dyn ConnectionExt<Error = E>, want: Option<u8>) -> R {
        let t = Instant::now();
        loop {
            let t1 = Instant::now();
            let got = match conn.peek() { Ok(g) => g, Err(e) => return fail("peek-error", format!("peek: {:?} ({})", e.kind(), e)) };
            check!(t1.elapsed() < LIMIT / 2, "peek-blocked", "peek took {:?}", t1.elapsed());
            if got == want { return Ok(()) }
            // sent, but maybe not there yet
            if got.is_none() && t.elapsed() < LIMIT { std::thread::yield_now(); continue }
            return fail("peek", format!("peek returned {:?}, the next byte is {:?}", got, want));
        }
    }
    if nb {
        c.label("in non-blocking mode at first");
        let mut p = peer.dup();
        let t = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(1)); let _ = p.write_all(b"!"); });
        let r = conn.read();
        let _ = t.join();
        let got = r.map_err(|e| io("read on a socket handed over in non-blocking mode", e))?;
        check!(got == b'!', "read", "read {} instead of {}", got, b'!');
    }
    for o in &ops {
        c.work += 1;
        match o {
            Op::Send(b) => { peer.write_all(b).map_err(|e| Fail { sig: "client".into(), msg: format!("{:?}", e) })?; down.extend(b) }
            Op::Later(d, b) => {
                if !down.is_empty() { continue }
                // read blocks until the byte comes, whatever was peeked before
                peek(conn, None)?;
                let (d, b2, mut p) = (*d, b.clone(), peer.dup());
                let t = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(d)); let _ = p.write_all(&b2); });
                let r = conn.read();
                let _ = t.join();
                let got = r.map_err(|e| io("read with the byte coming later", e))?;
                check!(got == b[0], "read", "read {} instead of {}", got, b[0]);
                interleaved += 1;
            }
            Op::Read(n) => for _ in 0..*n {
                if down.is_empty() { break }
                let got = conn.read().map_err(|e| io("read", e))?;
                let want = down.pop_front().unwrap();
                check!(got == want, "read", "read {} instead of {} ({} more are waiting)", got, want, down.len());
            },
            Op::Peek(n) => for _ in 0..*n { peek(conn, down.front().copied())?; interleaved += 1; },
            Op::Write(b) => for x in b { conn.write(*x).map_err(|e| io("write", e))?; up.push(*x) },
            Op::WriteAll(b) => { conn.write_all(b).map_err(|e| io("write_all", e))?; up.extend(b) }
            Op::Huge(n, d) => {
                peek(conn, down.front().copied())?;
                conn.flush().map_err(|e| io("flush", e))?;
                let total = up.len() + n;
                fd.sndbuf(if fd.1 { 100_000 } else { 4096 });
                let (d, mut p) = (*d, peer.dup());
                let t = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(d)); let mut v = vec![0; total]; p.read_exact(&mut v).map(|_| v) });
                let data: Vec<u8> = (0..*n).map(|i| (i as u64 * 0x9E37_79B9 >> 13) as u8).collect();
                let r = conn.write_all(&data).and_then(|_| conn.flush());
                if r.is_err() { peer.half_close(); drop(raw); let _ = t.join(); return Err(io("write_all of a large reply", r.unwrap_err())) }
                up.extend(&data);
                let got = t.join().unwrap().map_err(|e| Fail { sig: "delivery".into(), msg: format!("{} bytes written, the client cannot read them: {:?}", total, e) })?;
                check!(got == up, "delivery", "a large reply was not delivered exactly: {} of {} bytes right", got.iter().zip(&up).take_while(|(a, b)| a == b).count(), up.len());
                up.clear();
                fd.sndbuf(200_000);
                interleaved += 1;
                c.label("reply larger than the socket buffers");
            }
            Op::Flush => conn.flush().map_err(|e| io("flush", e))?,
            Op::Recv => {
                conn.flush().map_err(|e| io("flush", e))?;
                let mut v = vec![0; up.len()];
                peer.read_exact(&mut v).map_err(|e| Fail { sig: "delivery".into(), msg: format!("{} bytes written, the client cannot read them: {:?}", up.len(), e) })?;
                check!(v == up, "delivery", "the client received {} instead of {}", crate::rsp::show(&v), crate::rsp::show(&up));
                up.clear();
            }
        }
    }
    // the client leaves
    conn.flush().map_err(|e| io("flush", e))?;
    let close = s.bool();
    if close && up.is_empty() { drop(peer); peer = Box::new(UnixStream::pair().unwrap().0); c.label("closed") } else { peer.half_close(); c.label("half closed") }
    while let Some(want) = down.pop_front() {
        if s.chance(1, 16) { peek(conn, Some(want))? }
        match conn.read() { Ok(got) => check!(got == want, "read", "after the client left, read {} instead of {}", got, want), Err(e) => return Err(io("read of data sent before the client left", e)) }
    }
    for i in 0..2 {
        if s.bool() { let t = Instant::now(); let _ = conn.peek(); check!(t.elapsed() < LIMIT / 2, "peek-blocked", "peek took {:?}", t.elapsed()); }
        let t = Instant::now();
        match conn.read() { Ok(b) => return fail("read-after-end", format!("read {} ({}. time) after the client had left", b, i + 1)), Err(e) => check!(t.elapsed() < LIMIT / 2, "read-after-end", "read only fails after {:?}: {:?}", t.elapsed(), e) }
    }
    if !close || !up.is_empty() {
        let mut v = vec![0; up.len()];
        peer.read_exact(&mut v).map_err(|e| Fail { sig: "delivery".into(), msg: format!("{} bytes written, the client cannot read them: {:?}", up.len(), e) })?;
        check!(v == up, "delivery", "the client received {} instead of {}", crate::rsp::show(&v), crate::rsp::show(&up));
    }
    if interleaved > 0 { c.nontrivial(hash_bytes(format!("{:?}", ops).as_bytes())) }
    Ok(())
}
