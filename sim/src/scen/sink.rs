//! C05: hashers as byte sinks. Pipes with faulty sources (short reads, interruptions, would-block,
//! errors, early end), buffering adapters that are flushed, dropped or lost at any moment, and a
//! disk that fails under a tee. A twin is given, through `update`, exactly the bytes the hasher
//! acknowledged; both must agree at every check.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params};
use b2::blake2sp;
use blake2s_simd as b2;
use std::io::{self, BufWriter, IoSlice, LineWriter, Read, Write};

/// The two hashers, as sinks.
trait Hasher: Write {
    fn absorb(&mut self, d: &[u8]);
    fn digest(&mut self) -> Vec<u8>;
}
impl Hasher for b2::State {
    fn absorb(&mut self, d: &[u8]) {
        self.update(d);
    }
    fn digest(&mut self) -> Vec<u8> {
        self.finalize().as_bytes().to_vec()
    }
}
impl Hasher for blake2sp::State {
    fn absorb(&mut self, d: &[u8]) {
        self.update(d);
    }
    fn digest(&mut self) -> Vec<u8> {
        self.finalize().as_bytes().to_vec()
    }
}

/// What the source does at one read.
#[derive(Clone, Copy, Debug)]
enum Ev {
    Full,
    Short(usize),
    Interrupted,
    WouldBlock,
    Error,
    Eof,
}

struct Source<'a> {
    data: &'a [u8],
    at: usize,
    script: Vec<Ev>,
    next: usize,
    fired: Vec<Ev>,
}
impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let ev = self.script.get(self.next).copied().unwrap_or(Ev::Full);
        self.next += 1;
        self.fired.push(ev);
        let left = self.data.len() - self.at;
        let n = match ev {
            Ev::Full => buf.len().min(left),
            Ev::Short(k) => buf.len().min(left).min(k),
            Ev::Interrupted => return Err(io::ErrorKind::Interrupted.into()),
            Ev::WouldBlock => return Err(io::ErrorKind::WouldBlock.into()),
            Ev::Error => return Err(io::Error::new(io::ErrorKind::Other, "simulated I/O error")),
            Ev::Eof => 0,
        };
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// Sits between an adapter and the hasher and notes what the hasher acknowledged.
struct Spy<'a, W: Write> {
    w: &'a mut W,
    acked: Vec<u8>,
    bad: Option<(&'static str, String)>,
}
impl<'a, W: Write> Spy<'a, W> {
    fn new(w: &'a mut W) -> Self {
        Spy { w, acked: Vec::new(), bad: None }
    }
    fn judge(&mut self, call: &'static str, len: usize, r: &io::Result<usize>) -> usize {
        match r {
            Err(e) => {
                self.bad = Some((call, format!("{} of {} bytes failed: {}", call, len, e)));
                0
            }
            Ok(n) if *n > len => {
                self.bad = Some((call, format!("{} of {} bytes claims {}", call, len, n)));
                len
            }
            Ok(0) if len > 0 => {
                self.bad = Some((call, format!("{} of {} bytes made no progress", call, len)));
                0
            }
            Ok(n) => *n,
        }
    }
}
impl<'a, W: Write> Write for Spy<'a, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = self.w.write(b);
        let n = self.judge("write", b.len(), &r);
        self.acked.extend_from_slice(&b[..n]);
        r
    }
    fn write_vectored(&mut self, v: &[IoSlice<'_>]) -> io::Result<usize> {
        let r = self.w.write_vectored(v);
        let all: Vec<u8> = v.iter().flat_map(|s| s.iter().copied()).collect();
        let n = self.judge("write_vectored", all.len(), &r);
        self.acked.extend_from_slice(&all[..n]);
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = self.w.flush();
        if let Err(e) = &r {
            self.bad = Some(("flush", format!("flush failed: {}", e)));
        }
        r
    }
}

fn bad(b: (&'static str, String)) -> R {
    fail(&format!("sink: {}", b.0), b.1)
}

fn script(c: &mut Ctx) -> Vec<Ev> {
    let n = c.pick(12);
    (0..n)
        .map(|_| match c.weighted(&[4, 4, 3, 2, 1, 1]) {
            0 => Ev::Full,
            1 => Ev::Short(1 + c.pick(200) as usize),
            2 => Ev::Interrupted,
            3 => Ev::WouldBlock,
            4 => Ev::Error,
            _ => Ev::Eof,
        })
        .collect()
}

fn tally(c: &mut Ctx, fired: &[Ev]) {
    for f in fired {
        match f {
            Ev::Full => {}
            Ev::Short(_) => c.fault("short read"),
            Ev::Interrupted => c.fault("read interrupted (EINTR)"),
            Ev::WouldBlock => c.fault("read would block"),
            Ev::Error => c.fault("read error"),
            Ev::Eof => c.fault("early end of file"),
        }
    }
}

pub fn c05(c: &mut Ctx) -> R {
    if c.chance(1, 2) {
        let p = gen_params(c, true);
        ev!(c, "blake2s sink {:?}", p);
        let h = open(c, &p)?;
        let t = p.real().to_state();
        drive(c, h, t, "blake2s")
    } else {
        let p = gen_sp_params(c);
        ev!(c, "blake2sp sink hash_length {} key {}", p.hash_length, p.key.len());
        let h = open_sp(c, &p)?;
        let t = p.real_sp().to_state();
        drive(c, h, t, "blake2sp")
    }
}

fn compare<H: Hasher>(c: &mut Ctx, h: &mut H, t: &mut H, which: &str, when: &str) -> R {
    let got = c.call("finalize", || h.digest())?;
    let want = c.call("finalize of the twin", || t.digest())?;
    c.observe(&got);
    if got != want {
        return fail(
            &format!("absorbed: {}", which),
            format!("after {}: the sink's digest is {}, that of the acknowledged bytes {}", when, hex(&got), hex(&want)),
        );
    }
    Ok(())
}

fn drive<H: Hasher>(c: &mut Ctx, mut h: H, mut t: H, which: &str) -> R {
    let goal = c.goal(8, 30);
    let mut k = 0;
    let mut total = 0u64;
    let mut when = "opening";
    let big = [1, 0, 4][c.weighted(&[4, 2, 1])];
    while c.more(k, goal) {
        k += 1;
        let op = c.weighted(&[6, 3, 3, 1, 2, 5, 5, 2, 2, 2, 2, 1]);
        let mut acked: Vec<u8> = Vec::new();
        match op {
            0 => {
                when = "write";
                let d = piece(c, total, big);
                let dynamic = c.chance(1, 4);
                let r = c.call("write", || if dynamic { (&mut h as &mut dyn Write).write(&d) } else { h.write(&d) })?;
                ev!(c, "write({}) -> {:?}", d.len(), r);
                let mut spy = Spy { w: &mut h, acked: vec![], bad: None };
                let n = spy.judge("write", d.len(), &r);
                if let Some(b) = spy.bad {
                    return bad(b);
                }
                acked.extend_from_slice(&d[..n]);
            }
            1 => {
                when = "write_all";
                let d = piece(c, total, big);
                ev!(c, "write_all({})", d.len());
                if let Err(e) = c.call("write_all", || h.write_all(&d))? {
                    return fail("sink: write_all", format!("write_all of {} bytes failed: {}", d.len(), e));
                }
                acked = d;
            }
            2 => {
                when = "write_vectored";
                let n = c.pick(6) as usize;
                let ds: Vec<Vec<u8>> = (0..n).map(|_| piece(c, total, 0)).collect();
                let io: Vec<IoSlice> = ds.iter().map(|d| IoSlice::new(d)).collect();
                let r = c.call("write_vectored", || h.write_vectored(&io))?;
                ev!(c, "write_vectored({:?}) -> {:?}", ds.iter().map(|d| d.len()).collect::<Vec<_>>(), r);
                let all: Vec<u8> = ds.concat();
                let mut spy = Spy { w: &mut h, acked: vec![], bad: None };
                let n = spy.judge("write_vectored", all.len(), &r);
                if let Some(b) = spy.bad {
                    return bad(b);
                }
                acked.extend_from_slice(&all[..n]);
            }
            3 => {
                when = "write_fmt";
                let (a, b) = (c.pick(1 << 40), c.pick(200) as usize);
                let text = format!("{:>width$}|{}", a, "x".repeat(b / 2), width = b);
                ev!(c, "write!({} bytes of text)", text.len());
                if let Err(e) = c.call("write_fmt", || write!(h, "{:>width$}|{}", a, "x".repeat(b / 2), width = b))? {
                    return fail("sink: write_fmt", format!("write! failed: {}", e));
                }
                acked = text.into_bytes();
            }
            4 => {
                when = "flush";
                let before = c.call("finalize", || h.digest())?;
                let n = 1 + c.pick(2);
                ev!(c, "flush x{}", n);
                for _ in 0..n {
                    if let Err(e) = c.call("flush", || h.flush())? {
                        return fail("sink: flush", format!("flush failed: {}", e));
                    }
                }
                let after = c.call("finalize", || h.digest())?;
                if before != after {
                    return fail("sink: flush", format!("digest {} before flush, {} after", hex(&before), hex(&after)));
                }
            }
            5 => {
                // A copy from a faulty source, resumed after each error.
                when = "copy";
                let d = piece(c, total, big);
                let mut src = Source { data: &d, at: 0, script: script(c), next: 0, fired: vec![] };
                let mut tries = 0;
                loop {
                    tries += 1;
                    let r = c.call("io::copy", || io::copy(&mut src, &mut h))?;
                    ev!(c, "io::copy from {} of {}: {:?}", src.at, d.len(), r);
                    if r.is_ok() || tries > 20 {
                        break;
                    }
                    let give_up = c.chance(1, 4);
                    if give_up {
                        c.fault("copy abandoned after an error");
                        break;
                    }
                }
                let fired = std::mem::take(&mut src.fired);
                tally(c, &fired);
                let n = src.at;
                acked.extend_from_slice(&d[..n]);
            }
            6 | 7 => {
                when = if op == 6 { "BufWriter" } else { "LineWriter" };
                let cap = [64usize, 1, 0, 8192, 100][c.weighted(&[2, 1, 1, 1, 2])];
                let n = 1 + c.pick(5);
                let mut spy = Spy::new(&mut h);
                let mut given: Vec<u8> = Vec::new();
                let mut pieces = Vec::new();
                for _ in 0..n {
                    let mut d = piece(c, total, 0);
                    if op == 7 {
                        // Some line ends.
                        for i in 0..d.len() {
                            if d[i] < 12 {
                                d[i] = b'\n';
                            }
                        }
                    }
                    pieces.push((d, c.chance(1, 4), c.pick(2)));
                }
                let end = c.weighted(&[3, 3, 2]);
                ev!(c, "{} capacity {}: pieces {:?}, then {}", when, cap, pieces.iter().map(|p| p.0.len()).collect::<Vec<_>>(),
                    ["drop", "into_inner", "lost (crash)"][end]);
                let r = c.call("buffered writes", || -> io::Result<()> {
                    macro_rules! adapter {
                        ($w:expr) => {{
                            let mut w = $w;
                            for (d, flush, how) in &pieces {
                                if *how == 0 {
                                    w.write_all(d)?;
                                    given.extend_from_slice(d);
                                } else {
                                    let n = w.write(d)?;
                                    given.extend_from_slice(&d[..n]);
                                }
                                if *flush {
                                    w.flush()?;
                                }
                            }
                            match end {
                                0 => drop(w),
                                1 => {
                                    w.into_inner().map_err(|e| e.into_error())?;
                                }
                                _ => std::mem::forget(w),
                            }
                        }};
                    }
                    if op == 6 {
                        adapter!(BufWriter::with_capacity(cap, &mut spy))
                    } else {
                        adapter!(LineWriter::with_capacity(cap, &mut spy))
                    }
                    Ok(())
                })?;
                if let Some(b) = spy.bad {
                    return bad(b);
                }
                if let Err(e) = r {
                    return fail("sink: buffered", format!("{} failed: {}", when, e));
                }
                if end == 2 {
                    c.fault("adapter lost with its buffer");
                } else {
                    c.fault("adapter dropped or unwrapped");
                    if spy.acked != given {
                        return fail("sink: buffered", format!("{}: {} bytes given, {} acknowledged", when, given.len(), spy.acked.len()));
                    }
                }
                acked = spy.acked;
            }
            8 => {
                // Tee with a disk that fills up or writes short: the application hashes what the disk took.
                when = "tee";
                let d = piece(c, total, 1);
                let mut at = 0;
                let mut tries = 0;
                while at < d.len() && tries < 12 {
                    tries += 1;
                    let took = match c.weighted(&[3, 3, 1, 1]) {
                        0 => d.len() - at,
                        1 => {
                            c.fault("short disk write");
                            1 + c.pick((d.len() - at) as u64) as usize
                        }
                        2 => {
                            c.fault("disk write error");
                            0
                        }
                        _ => {
                            c.fault("disk full");
                            break;
                        }
                    };
                    let took = took.min(d.len() - at);
                    if took > 0 {
                        let mut done = 0;
                        while done < took {
                            let r = c.call("write", || h.write(&d[at + done..at + took]))?;
                            let mut spy = Spy { w: &mut h, acked: vec![], bad: None };
                            let n = spy.judge("write", took - done, &r);
                            if let Some(b) = spy.bad {
                                return bad(b);
                            }
                            done += n;
                        }
                        at += took;
                    }
                }
                ev!(c, "tee: the disk took {} of {} bytes", at, d.len());
                acked.extend_from_slice(&d[..at]);
            }
            9 => {
                // Many small writes in a row.
                when = "small writes";
                let (n, size) = (1 + c.pick(300) as usize, 1 + c.pick(70) as usize);
                let d = data(c, n * size);
                ev!(c, "{} writes of {} bytes", n, size);
                for p in d.chunks(size) {
                    let r = c.call("write", || h.write(p))?;
                    let mut spy = Spy { w: &mut h, acked: vec![], bad: None };
                    let k = spy.judge("write", p.len(), &r);
                    if let Some(b) = spy.bad {
                        return bad(b);
                    }
                    acked.extend_from_slice(&p[..k]);
                }
            }
            10 => {
                when = "update";
                let d = piece(c, total, big);
                ev!(c, "update({})", d.len());
                c.call("update", || h.absorb(&d))?;
                acked = d;
            }
            _ => {
                // An error arrives between two halves of one copy, through a chained, limited source.
                when = "chained copy";
                let d = piece(c, total, big);
                let cut = c.pick(d.len() as u64 + 1) as usize;
                ev!(c, "io::copy of a chain of {} and {} bytes", cut, d.len() - cut);
                let r = c.call("io::copy", || io::copy(&mut (&d[..cut]).chain(&d[cut..]).take(d.len() as u64), &mut h))?;
                match r {
                    Ok(n) if n == d.len() as u64 => {}
                    r => return fail("sink: copy", format!("io::copy of {} bytes: {:?}", d.len(), r)),
                }
                acked = d;
            }
        }
        c.sig(&[op as u64, total % 64, size_class(acked.len()), which.len() as u64]);
        c.call("update of the twin", || t.absorb(&acked))?;
        total += acked.len() as u64;
        c.bytes += acked.len() as u64;
        if c.chance(1, 3) {
            compare(c, &mut h, &mut t, which, when)?;
        }
    }
    compare(c, &mut h, &mut t, which, when)
}

fn piece(c: &mut Ctx, total: u64, big: u64) -> Vec<u8> {
    let n = gen_len(c, total, big);
    data(c, n)
}
