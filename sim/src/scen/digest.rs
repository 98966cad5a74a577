//! C19: digest values. Digests come out of hasher histories by every route there is, are copied,
//! kept, printed into sinks that fail, and sent as bytes over a link that flips bits, truncates
//! and extends. At every instant a digest must show what it showed when it was made, and must be
//! equal to exactly the digests and byte strings that show the same bytes.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params, PSpec};
use b2::Hash;
use blake2s_simd as b2;
use std::fmt::Write;

struct Kept {
    h: Hash,
    shown: Vec<u8>,
}

struct Sink {
    got: String,
    room: usize,
    failed: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut k = s.len().min(self.room - self.got.len());
        if self.failed {
            k = 0;
        }
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        self.got.push_str(&s[..k]);
        if k < s.len() || self.failed {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

/// Short digests are favoured: they collide, so equal bytes come from different histories.
fn length(c: &mut Ctx) -> usize {
    match c.weighted(&[3, 4, 1, 4]) {
        0 => 32,
        1 => 1,
        2 => 2,
        _ => 1 + c.pick(32) as usize,
    }
}

fn spec(c: &mut Ctx, keys: bool) -> PSpec {
    let mut p = gen_params(c, keys);
    p.hash_length = length(c);
    p
}

/// A new digest, checked against its configured length. (Which bytes it shows is C01's and C02's
/// business.)
fn keep(c: &mut Ctx, pool: &mut Vec<Kept>, what: &str, h: Hash, want: usize) -> R {
    let shown = c.call("Hash::as_bytes", || h.as_bytes().to_vec())?;
    ev!(c, "digest of {} bytes by {}: {}", want, what, hex(&shown));
    if shown.len() != want {
        return fail("length", format!("a digest configured for {} bytes ({}) exposes {}", want, what, shown.len()));
    }
    c.observe(&shown);
    pool.push(Kept { h, shown });
    Ok(())
}

fn same_text(what: &str, got: &str, want: &str) -> R {
    if got != want {
        return fail(&format!("text: {}", what), format!("{} is {:?}, the bytes are {}", what, got, want));
    }
    Ok(())
}

/// Everything a digest shows, at this instant.
fn look(c: &mut Ctx, k: &Kept) -> R {
    let (a, b) = c.call("Hash::as_bytes", || (k.h.as_bytes().to_vec(), AsRef::<[u8]>::as_ref(&k.h).to_vec()))?;
    if a != k.shown || b != k.shown {
        return fail("bytes", format!("as_bytes {}, as_ref {}, expected {}", hex(&a), hex(&b), hex(&k.shown)));
    }
    let want = hex(&k.shown);
    let t = c.call("Hash::to_hex", || k.h.to_hex().as_str().to_string())?;
    same_text("to_hex", &t, &want)?;
    let t = c.call("Display of to_hex", || format!("{}", k.h.to_hex()))?;
    same_text("Display of to_hex", &t, &want)?;
    let t = c.call("Debug of Hash", || format!("{:?}", k.h))?;
    if !t.contains(&want) {
        return fail("text: Debug", format!("{:?} does not contain {}", t, want));
    }
    Ok(())
}

/// Both directions, both operators, digest with digest.
fn compare(c: &mut Ctx, a: &Kept, b: &Kept) -> R {
    let want = a.shown == b.shown;
    let r = c.call("Hash == Hash", || (a.h == b.h, b.h == a.h, !(a.h != b.h), !(b.h != a.h)))?;
    c.probe(if want { "equal digests compared" } else if a.shown.len() == b.shown.len() { "different digests of equal length compared" } else { "digests of different lengths compared" });
    if r != (want, want, want, want) {
        return fail("equality: Hash and Hash", format!("{} and {}: ==, ==, !(!=), !(!=) give {:?}", hex(&a.shown), hex(&b.shown), r));
    }
    Ok(())
}

/// Digest with byte string.
fn compare_bytes(c: &mut Ctx, a: &Kept, b: &[u8]) -> R {
    let want = a.shown == b;
    let r = c.call("Hash == [u8]", || (a.h == *b, !(a.h != *b)))?;
    if r != (want, want) {
        return fail("equality: Hash and bytes", format!("{} and {}: ==, !(!=) give {:?}", hex(&a.shown), hex(b), r));
    }
    Ok(())
}

fn flip(c: &mut Ctx, n: usize) -> (usize, u8) {
    let i = match c.weighted(&[3, 2, 2]) {
        0 => c.pick(n as u64) as usize,
        1 => n - 1,
        _ => 0,
    };
    (i, 1 << c.pick(8))
}

/// A copy of the digest with one bit of its shown bytes flipped where it is kept, if it is kept
/// inside the value at all.
fn corrupted(k: &Kept, i: usize, bit: u8) -> Option<Kept> {
    let mut h = k.h;
    let base = &mut h as *mut Hash as usize;
    let at = (h.as_bytes().as_ptr() as usize).wrapping_sub(base).checked_add(i)?;
    if at >= std::mem::size_of::<Hash>() {
        return None;
    }
    unsafe {
        let p = (&mut h as *mut Hash as *mut u8).add(at);
        std::ptr::write_volatile(p, std::ptr::read_volatile(p) ^ bit);
    }
    let mut shown = k.shown.clone();
    shown[i] ^= bit;
    if h.as_bytes() != &shown[..] {
        return None;
    }
    Some(Kept { h, shown })
}

pub fn c19(c: &mut Ctx) -> R {
    let mut pool: Vec<Kept> = Vec::new();
    let p = spec(c, true);
    let mut one = One::new(c, p)?;
    let mut ps = gen_sp_params(c);
    ps.hash_length = length(c);
    let mut sp = Sp::new(c, ps)?;
    let (mut fed, mut spfed) = (0u64, 0u64);
    let goal = c.goal(10, 40);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let op = c.weighted(&[4, 4, 4, 3, 3, 2, 4, 4, 5, 4, 3, 4]);
        let n = pool.len() as u64;
        match op {
            0 => {
                let len = gen_len(c, fed, 0);
                let d = data(c, len);
                fed += len as u64;
                ev!(c, "BLAKE2s hasher: {} bytes", len);
                one.update(c, &d)?;
                c.sig(&[op as u64, len as u64 % 64]);
            }
            1 => {
                let h = c.call("State::finalize", || one.s.finalize())?;
                let want = one.p.hash_length;
                c.sig(&[op as u64, want as u64]);
                keep(c, &mut pool, "State::finalize", h, want)?;
            }
            2 => {
                if c.chance(1, 2) {
                    let len = gen_len(c, spfed, 0);
                    let d = data(c, len);
                    spfed += len as u64;
                    ev!(c, "BLAKE2sp hasher: {} bytes", len);
                    sp.update(c, &d)?;
                }
                let h = c.call("blake2sp::State::finalize", || sp.s.finalize())?;
                let want = sp.p.hash_length;
                c.sig(&[op as u64, want as u64]);
                keep(c, &mut pool, "blake2sp::State::finalize", h, want)?;
            }
            3 => {
                let len = gen_len(c, 0, 0);
                let d = data(c, len);
                if c.chance(1, 2) {
                    let h = c.call("blake2s", || b2::blake2s(&d))?;
                    keep(c, &mut pool, "blake2s", h, 32)?;
                } else {
                    let h = c.call("blake2sp", || b2::blake2sp::blake2sp(&d))?;
                    keep(c, &mut pool, "blake2sp", h, 32)?;
                }
                c.sig(&[op as u64, len as u64 % 64]);
            }
            4 => {
                // Eight digests at once, each hasher with its own length.
                let mut v = Vec::new();
                for _ in 0..8 {
                    let p = spec(c, true);
                    let mut o = One::new(c, p)?;
                    let len = c.pick(200) as usize;
                    let d = data(c, len);
                    o.update(c, &d)?;
                    v.push(o);
                }
                ev!(c, "finalize8 over lengths {:?}", v.iter().map(|o| o.p.hash_length).collect::<Vec<_>>());
                let wants: Vec<usize> = v.iter().map(|o| o.p.hash_length).collect();
                let mut states: Vec<b2::State> = v.into_iter().map(|o| o.s).collect();
                let order: Vec<usize> = (0..8).collect();
                let hs = c.call("finalize8", || finalize8(&mut states, &order))?;
                for (h, w) in hs.iter().zip(wants) {
                    keep(c, &mut pool, "finalize8", *h, w)?;
                }
            }
            5 => {
                let kind = c.pick(3);
                let lanes = if kind == 0 { 4 } else { 8 };
                let blocks = 1 + c.pick(3) as usize;
                let len = if kind == 2 { c.pick(200) as usize } else { blocks * 64 };
                let ins: Vec<Vec<u8>> = (0..lanes).map(|_| data(c, len)).collect();
                let refs: Vec<&[u8]> = ins.iter().map(|d| &d[..]).collect();
                if kind == 2 {
                    let specs: Vec<PSpec> = (0..8).map(|_| spec(c, false)).collect();
                    let real: Vec<b2::Params> = specs.iter().map(|p| p.real()).collect();
                    let rp: Vec<&b2::Params> = real.iter().collect();
                    let hs = c.call("hash8", || hash8(&rp, &refs))?;
                    for i in 0..8 {
                        keep(c, &mut pool, "hash8", hs[i], specs[i].hash_length)?;
                    }
                } else {
                    let p = spec(c, true);
                    let real = p.real();
                    let hs: Vec<Hash> = if kind == 0 {
                        c.call("hash4_exact", || hash4_exact(&real, &refs))?.to_vec()
                    } else {
                        c.call("hash8_exact", || hash8_exact(&real, &refs))?.to_vec()
                    };
                    for i in 0..lanes {
                        keep(c, &mut pool, if kind == 0 { "hash4_exact" } else { "hash8_exact" }, hs[i], p.hash_length)?;
                    }
                }
                c.sig(&[op as u64, kind, len as u64]);
            }
            _ if n == 0 => {}
            6 => {
                let i = c.pick(n) as usize;
                ev!(c, "look at digest {}", i);
                look(c, &pool[i])?;
            }
            7 => {
                let (i, j) = (c.pick(n) as usize, c.pick(n) as usize);
                ev!(c, "compare digests {} and {}", i, j);
                c.sig(&[op as u64, pool[i].shown.len() as u64, pool[j].shown.len() as u64]);
                compare(c, &pool[i], &pool[j])?;
            }
            8 => {
                // The bytes travel to a verifier over a bad link.
                let i = c.pick(n) as usize;
                let mut b = pool[i].shown.clone();
                let what = c.weighted(&[2, 4, 2, 2, 2, 2, 1, 2, 1]);
                match what {
                    0 => {}
                    1 => {
                        let (at, bit) = flip(c, b.len());
                        b[at] ^= bit;
                        c.fault("bit flipped in transit");
                    }
                    2 => {
                        // Two flips that cancel in a sum or an exclusive or.
                        let (at, bit) = flip(c, b.len());
                        let to = c.pick(b.len() as u64) as usize;
                        b[at] ^= bit;
                        b[to] ^= bit;
                        c.fault("two bits flipped in transit");
                    }
                    3 => {
                        let keep = c.pick(b.len() as u64) as usize;
                        b.truncate(keep);
                        c.fault("truncated in transit");
                    }
                    4 => {
                        let more = 1 + c.pick(40) as usize;
                        let mut d = data(c, more);
                        b.append(&mut d);
                        c.fault("extended in transit");
                    }
                    5 => {
                        let to = if c.chance(1, 2) { 256 } else { 256 * (1 + c.pick(8) as usize) } + b.len();
                        b.resize(to, 0);
                        c.fault("extended by a multiple of 256");
                    }
                    6 => {
                        let mut d = b.clone();
                        b.append(&mut d);
                        c.fault("duplicated in transit");
                    }
                    7 => {
                        if b.len() > 1 {
                            let (x, y) = (c.pick(b.len() as u64) as usize, c.pick(b.len() as u64) as usize);
                            b.swap(x, y);
                            c.fault("bytes reordered in transit");
                        }
                    }
                    _ => {
                        b = hex(&b).into_bytes();
                    }
                }
                ev!(c, "digest {} against received {}", i, hex(&b[..b.len().min(80)]));
                c.sig(&[op as u64, what as u64, pool[i].shown.len() as u64]);
                compare_bytes(c, &pool[i], &b)?;
            }
            9 => {
                let i = c.pick(n) as usize;
                let (at, bit) = flip(c, pool[i].shown.len());
                match corrupted(&pool[i], at, bit) {
                    Some(x) => {
                        ev!(c, "digest {}: bit {:#x} of byte {} flips where it is kept", i, bit, at);
                        c.fault("bit flipped in a kept digest");
                        c.sig(&[op as u64, at as u64, pool[i].shown.len() as u64]);
                        compare(c, &x, &pool[i])?;
                        compare_bytes(c, &x, &pool[i].shown)?;
                        look(c, &x)?;
                        let mut y = x;
                        if let Some(z) = corrupted(&y, at, bit) {
                            y = z;
                            compare(c, &y, &pool[i])?;
                        }
                    }
                    None => c.probe("digest not kept inside the value"),
                }
            }
            10 => {
                let i = c.pick(n) as usize;
                let copy = c.call("Hash::clone", || pool[i].h.clone())?;
                ev!(c, "copy digest {}", i);
                let shown = pool[i].shown.clone();
                pool.push(Kept { h: copy, shown });
                let j = pool.len() - 1;
                compare(c, &pool[j], &pool[i])?;
            }
            _ => {
                let i = c.pick(n) as usize;
                let as_hex = c.chance(1, 2);
                let full = if as_hex { hex(&pool[i].shown) } else { c.call("Debug of Hash", || format!("{:?}", pool[i].h))? };
                let room = c.pick(full.len() as u64 + 2) as usize;
                let mut s = Sink { got: String::new(), room, failed: false };
                let h = &pool[i].h;
                let r = c.call("fmt of Hash", || if as_hex { write!(s, "{}", h.to_hex()) } else { write!(s, "{:?}", h) })?;
                ev!(c, "digest {} into a sink with room for {} of {}: {:?}", i, room, full.len(), r);
                if s.failed {
                    c.fault("text sink full");
                }
                let class = if as_hex { "sink: hex" } else { "sink: Debug" };
                if !full.starts_with(&s.got) || r.is_ok() == s.failed || (!s.failed && s.got != full) {
                    return fail(class, format!("sink got {:?} of {:?}, result {:?}", s.got, full, r));
                }
            }
        }
    }
    // At the end: nothing that happened since has changed any digest, and they all compare rightly.
    for i in 0..pool.len() {
        look(c, &pool[i])?;
        let shown = pool[i].shown.clone();
        compare_bytes(c, &pool[i], &shown)?;
        for j in i..pool.len().min(i + 12) {
            compare(c, &pool[i], &pool[j])?;
        }
    }
    Ok(())
}
