//! C13: every accepted operation runs while the heap is exhausted. The simulator's allocator
//! refuses (or, in half of the runs, merely counts) every request made inside a call; results must
//! be those of the same history with the heap available, and no request may be made at all.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::heap::armed;
use crate::params::{gen_bytes_exact, gen_len, gen_params, gen_sp_params};
use blake2s_simd as b2;
use std::fmt::Write as _;

/// Text without a heap.
struct Text {
    b: [u8; 4096],
    n: usize,
}
impl Text {
    fn new() -> Text {
        Text { b: [0; 4096], n: 0 }
    }
    fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = s.len().min(self.b.len() - self.n);
        self.b[self.n..self.n + k].copy_from_slice(&s.as_bytes()[..k]);
        self.n += k;
        Ok(())
    }
}

fn bare<T>(c: &mut Ctx, dry: bool, what: &'static str, f: impl FnOnce() -> T) -> R<T> {
    c.fault(if dry { "heap exhausted during the call" } else { "heap requests counted during the call" });
    let (v, n, largest) = c.call(what, || armed(dry, f))?;
    if n > 0 {
        return fail(&format!("heap: {}", what), format!("{} made {} heap requests, the largest of {} bytes", what, n, largest));
    }
    Ok(v)
}

fn differ(what: &str, got: &[u8], want: &[u8]) -> R {
    if got != want {
        return fail(&format!("without heap: {}", what), format!("{}: {} without heap, {} with", what, hex(got), hex(want)));
    }
    Ok(())
}

/// One of the ways to format a value: plain, alternate, hexadecimal, padded.
fn show(t: &mut impl std::fmt::Write, style: u64, v: &impl std::fmt::Debug) -> std::fmt::Result {
    match style {
        0 => write!(t, "{:?}", v),
        1 => write!(t, "{:#?}", v),
        2 => write!(t, "{:x?}", v),
        3 => write!(t, "{:#X?}", v),
        4 => write!(t, "{:>90?}", v),
        5 => write!(t, "{:*<9.3?}", v),
        6 => write!(t, "{:+09?}", v),
        _ => write!(t, "{:?}", Some((v, [v]))),
    }
}

/// Format without a heap; the text is that written with one.
fn text(c: &mut Ctx, dry: bool, what: &'static str, v: &impl std::fmt::Debug, w: &impl std::fmt::Debug) -> R {
    let style = c.pick(8);
    let mut t = Text::new();
    let r = bare(c, dry, what, || show(&mut t, style, v))?;
    let mut full = String::new();
    show(&mut full, style, w).ok();
    if r.is_err() {
        return fail(&format!("without heap: {}", what), format!("{} reports a failure the sink did not have", what));
    }
    differ(what, t.get(), full.as_bytes())
}

pub fn c13(c: &mut Ctx) -> R {
    let dry = c.chance(1, 2);
    let with_pool = c.chance(1, 2);
    let n = if with_pool { 8 } else { 1 };
    let p = gen_params(c, true);
    let sp = gen_sp_params(c);
    ev!(c, "{} hashers {:?}; blake2sp hash_length {} key {}", n, p, sp.hash_length, sp.key.len());
    // Storage for the hashers exists beforehand; it is the caller's.
    let mut a: Vec<b2::State> = Vec::with_capacity(n);
    let mut b: Vec<b2::State> = Vec::with_capacity(n);
    let mixed = c.chance(1, 2);
    for _ in 0..n {
        let p = if mixed { gen_params(c, true) } else { p.clone() };
        let s = bare(c, dry, "Params::to_state", || p.real().to_state())?;
        a.push(s);
        b.push(p.real().to_state());
    }
    let mut len = vec![0u64; n];
    let mut sa = bare(c, dry, "blake2sp::Params::to_state", || sp.real_sp().to_state())?;
    let mut sb = sp.real_sp().to_state();
    let mut slen = 0u64;
    let goal = c.goal(8, 30);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = if n > 1 { c.pick(n as u64) as usize } else { 0 };
        let w8 = if with_pool { 4 } else { 0 };
        let op = c.weighted(&[6, 4, w8, w8, 2, 4, 3, 2, 2, 3, 2, 2, 2, 1, 2]);
        c.sig(&[op as u64, len[i] % 64, slen % 1024 / 16, dry as u64]);
        match op {
            0 => {
                let m = gen_len(c, len[i], 1);
                let d = data(c, m);
                ev!(c, "hasher {}: update({})", i, m);
                let s = &mut a[i];
                bare(c, dry, "State::update", || drop(s.update(&d)))?;
                b[i].update(&d);
                len[i] += m as u64;
                c.bytes += m as u64;
            }
            1 => {
                ev!(c, "hasher {}: digest", i);
                let s = &mut a[i];
                let g = bare(c, dry, "State::finalize", || s.finalize())?;
                let w = b[i].finalize();
                c.observe(g.as_bytes());
                differ("finalize", g.as_bytes(), w.as_bytes())?;
                // The digest itself: hex, comparison, debug text.
                let hx = bare(c, dry, "Hash::to_hex", || g.to_hex())?;
                text(c, dry, "Hash::fmt", &g, &w)?;
                let mut t = Text::new();
                let pad = c.chance(1, 2);
                let r = bare(c, dry, "HexString::fmt", || if pad { write!(t, "{:>80}", hx.as_str()) } else { write!(t, "{}", hx) })?;
                text(c, dry, "HexString::fmt", &hx, &hx)?;
                let eq = bare(c, dry, "Hash::eq", || g == w && g == *w.as_bytes() && g.as_ref().len() == w.as_bytes().len())?;
                if r.is_err() || !eq || hx.as_str() != hex(w.as_bytes()) {
                    return fail("without heap: Hash", format!("hex {}, equal {}", hx.as_str(), eq));
                }
            }
            2 => {
                let order = c.distinct(8, 8);
                let base = gen_len(c, len[order[0]], 0);
                let lens: Vec<usize> = (0..8).map(|_| if c.chance(1, 4) { c.pick(200) as usize } else { base }).collect();
                let d: Vec<Vec<u8>> = lens.iter().map(|&m| data(c, m)).collect();
                let refs: Vec<&[u8]> = d.iter().map(|v| &v[..]).collect();
                ev!(c, "update8 lanes {:?} lengths {:?}", order, lens);
                let mut m = pick_mut(&mut a, &order);
                let mut it = m.iter_mut();
                let mut nx = || &mut **it.next().unwrap();
                let (s0, s1, s2, s3, s4, s5, s6, s7) = (nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx());
                bare(c, dry, "update8", || {
                    b2::update8(
                        s0, s1, s2, s3, s4, s5, s6, s7, refs[0], refs[1], refs[2], refs[3], refs[4], refs[5], refs[6], refs[7],
                    )
                })?;
                for l in 0..8 {
                    b[order[l]].update(refs[l]);
                    len[order[l]] += lens[l] as u64;
                }
            }
            3 => {
                let order = c.distinct(8, 8);
                ev!(c, "finalize8 lanes {:?}", order);
                let mut m = pick_mut(&mut a, &order);
                let mut it = m.iter_mut();
                let mut nx = || &mut **it.next().unwrap();
                let (s0, s1, s2, s3, s4, s5, s6, s7) = (nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx());
                let g = bare(c, dry, "finalize8", || b2::finalize8(s0, s1, s2, s3, s4, s5, s6, s7))?;
                let w = finalize8(&mut b, &order);
                for l in 0..8 {
                    differ("finalize8", g[l].as_bytes(), w[l].as_bytes())?;
                }
            }
            4 => {
                ev!(c, "hasher {}: clone and drop, clone_from", i);
                let s = &a[i];
                let mut t = bare(c, dry, "State::clone", || s.clone())?;
                bare(c, dry, "State::clone_from", || t.clone_from(s))?;
                bare(c, dry, "State drop", || drop(t))?;
            }
            5 => {
                let m = gen_len(c, slen, 1);
                let d = data(c, m);
                ev!(c, "blake2sp: update({})", m);
                bare(c, dry, "blake2sp::State::update", || drop(sa.update(&d)))?;
                sb.update(&d);
                slen += m as u64;
            }
            6 => {
                ev!(c, "blake2sp: digest");
                let g = bare(c, dry, "blake2sp::State::finalize", || sa.finalize())?;
                differ("blake2sp finalize", g.as_bytes(), sb.finalize().as_bytes())?;
            }
            7 => {
                ev!(c, "count and debug text");
                let s = &a[i];
                let x = bare(c, dry, "State::count", || s.count())?;
                let y = bare(c, dry, "blake2sp::State::count", || sa.count())?;
                if x != b[i].count() || y != sb.count() {
                    return fail("without heap: count", format!("{} and {}", x, y));
                }
                text(c, dry, "State::fmt", s, &b[i])?;
                text(c, dry, "blake2sp::State::fmt", &sa, &sb)?;
            }
            8 => {
                ev!(c, "parameter sets built, cloned, used, dropped");
                let q = bare(c, dry, "Params setters", || p.real())?;
                let r = bare(c, dry, "Params::clone", || q.clone())?;
                let mut s = bare(c, dry, "Params::to_state", || r.to_state())?;
                let g = bare(c, dry, "State::finalize", || s.finalize())?;
                differ("Params", g.as_bytes(), p.real().to_state().finalize().as_bytes())?;
                let q = bare(c, dry, "blake2sp::Params setters", || sp.real_sp())?;
                let r = bare(c, dry, "blake2sp::Params::clone", || q.clone())?;
                text(c, dry, "blake2sp::Params::fmt", &r, &sp.real_sp())?;
                let mut s = bare(c, dry, "blake2sp::Params::to_state", || r.to_state())?;
                let g = bare(c, dry, "blake2sp::State::finalize", || s.finalize())?;
                differ("blake2sp::Params", g.as_bytes(), sp.real_sp().to_state().finalize().as_bytes())?;
            }
            9 => {
                let m = 64 * (1 + if c.chance(1, 60) { c.pick(4000) } else { c.pick(20) } as usize);
                let d = data(c, m + 8);
                let ins: [&[u8]; 8] = [&d[..m], &d[1..][..m], &d[2..][..m], &d[3..][..m], &d[4..][..m], &d[5..][..m], &d[6..][..m], &d[7..][..m]];
                let q = p.real();
                ev!(c, "exact batches of {} bytes", m);
                let g4 = bare(c, dry, "hash4_exact", || b2::hash4_exact(&q, ins[0], ins[1], ins[2], ins[3]))?;
                let g8 = bare(c, dry, "hash8_exact", || {
                    b2::hash8_exact(&q, ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7])
                })?;
                let w4 = hash4_exact(&q, &ins);
                let w8 = hash8_exact(&q, &ins);
                for l in 0..8 {
                    if l < 4 {
                        differ("hash4_exact", g4[l].as_bytes(), w4[l].as_bytes())?;
                    }
                    differ("hash8_exact", g8[l].as_bytes(), w8[l].as_bytes())?;
                }
            }
            10 => {
                let mut u = p.clone();
                u.key.clear();
                let apart = c.chance(1, 2);
                let qs: Vec<b2::Params> = (0..8).map(|_| if apart { gen_params(c, false).real() } else { u.real() }).collect();
                let most = if c.chance(1, 60) { 200_000 } else { 1200 };
                let m = c.pick(most) as usize;
                let same = c.chance(1, 2);
                let d = data(c, most as usize);
                let l: Vec<usize> = (0..8).map(|_| if same { m / 64 * 64 } else { c.pick(most) as usize }).collect();
                let ins: Vec<&[u8]> = l.iter().map(|&x| &d[..x]).collect();
                ev!(c, "hash8 of {:?} bytes", l);
                let g = bare(c, dry, "hash8", || {
                    b2::hash8(
                        &qs[0], &qs[1], &qs[2], &qs[3], &qs[4], &qs[5], &qs[6], &qs[7], ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7],
                    )
                })?;
                let w = hash8(&qs.iter().collect::<Vec<_>>(), &ins);
                for l in 0..8 {
                    differ("hash8", g[l].as_bytes(), w[l].as_bytes())?;
                }
            }
            11 => {
                let m = gen_len(c, 0, 1);
                let d = data(c, m);
                ev!(c, "one-call digests of {} bytes", m);
                let g = bare(c, dry, "blake2s", || b2::blake2s(&d))?;
                differ("blake2s()", g.as_bytes(), b2::blake2s(&d).as_bytes())?;
                let g = bare(c, dry, "blake2sp", || b2::blake2sp::blake2sp(&d))?;
                differ("blake2sp()", g.as_bytes(), b2::blake2sp::blake2sp(&d).as_bytes())?;
            }
            12 => {
                let key = gen_bytes_exact(c, 32);
                let on = c.chance(1, 2);
                let s = &mut a[i];
                bare(c, dry, "State::set_last_node", || drop(s.set_last_node(on)))?;
                b[i].set_last_node(on);
                let g = bare(c, dry, "State::new", || {
                    (b2::State::new().finalize(), b2::State::default().finalize(), b2::Params::new().key(&key).to_state().finalize())
                })?;
                ev!(c, "fresh hashers {}", hex(g.0.as_bytes()));
                let g = bare(c, dry, "blake2sp::State::new", || {
                    (b2::blake2sp::State::new().finalize(), b2::blake2sp::State::default().finalize())
                })?;
                differ("blake2sp::State::new", g.0.as_bytes(), g.1.as_bytes())?;
            }
            13 => {
                writes(c, dry, &mut a[i], &mut b[i], &mut len[i])?;
                writes_sp(c, dry, &mut sa, &mut sb, &mut slen)?;
            }
            _ => {
                // Digests compared with digests and byte strings of any length and kinship.
                let g = b2::Params::new().hash_length(1 + c.pick(32) as usize).to_state().update(b"one").finalize();
                let h = b2::Params::new().hash_length(1 + c.pick(32) as usize).to_state().update(b"one").finalize();
                let m = [0, 1, g.as_bytes().len(), g.as_bytes().len() + 1, 64, 1000, c.pick(70) as usize][c.pick(7) as usize];
                let mut x = if c.chance(1, 2) { g.as_bytes().to_vec() } else { data(c, m) };
                x.resize(m, 0);
                ev!(c, "comparisons of {} bytes with {} and {}", g.as_bytes().len(), h.as_bytes().len(), m);
                let e = bare(c, dry, "Hash::eq", || (g == h, g != h, h == g, g == x[..], g != x[..], g.clone() == g))?;
                let (ab, ax) = (g.as_bytes() == h.as_bytes(), g.as_bytes() == &x[..]);
                if e != (ab, !ab, ab, ax, !ax, true) {
                    return fail("without heap: Hash::eq", format!("{:?}", e));
                }
            }
        }
    }
    for i in 0..n {
        let s = &mut a[i];
        let g = bare(c, dry, "State::finalize", || s.finalize())?;
        differ("finalize", g.as_bytes(), b[i].finalize().as_bytes())?;
    }
    let g = bare(c, dry, "blake2sp::State::finalize", || sa.finalize())?;
    differ("blake2sp finalize", g.as_bytes(), sb.finalize().as_bytes())
}

#[cfg(feature = "std")]
fn writes(c: &mut Ctx, dry: bool, a: &mut b2::State, b: &mut b2::State, len: &mut u64) -> R {
    use std::io::Write;
    let m = gen_len(c, *len, 0);
    let d = data(c, m);
    ev!(c, "write_all({}), flush", m);
    bare(c, dry, "write_all", || a.write_all(&d).is_ok())?;
    bare(c, dry, "flush", || a.flush().is_ok())?;
    b.update(&d);
    *len += m as u64;
    Ok(())
}
#[cfg(not(feature = "std"))]
fn writes(_: &mut Ctx, _: bool, _: &mut b2::State, _: &mut b2::State, _: &mut u64) -> R {
    Ok(())
}

#[cfg(feature = "std")]
fn writes_sp(c: &mut Ctx, dry: bool, a: &mut b2::blake2sp::State, b: &mut b2::blake2sp::State, len: &mut u64) -> R {
    use std::io::Write;
    let m = gen_len(c, *len, 0);
    let d = data(c, m);
    ev!(c, "blake2sp: write_all({}), flush", m);
    bare(c, dry, "blake2sp write_all", || a.write_all(&d).is_ok())?;
    bare(c, dry, "blake2sp flush", || a.flush().is_ok())?;
    b.update(&d);
    *len += m as u64;
    Ok(())
}
#[cfg(not(feature = "std"))]
fn writes_sp(_: &mut Ctx, _: bool, _: &mut b2::blake2sp::State, _: &mut b2::blake2sp::State, _: &mut u64) -> R {
    Ok(())
}
