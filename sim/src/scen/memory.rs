//! C12: memory placement. Inputs, hashers and parameter sets live in arenas between unmapped pages,
//! flush against one of them, at any alignment, read-only where the call has no business writing,
//! overlapping or identical where it may not care. A stray access is a fault the simulator sees;
//! results must be those of the same calls on ordinary memory, and bytes around a hasher stay put.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_params, gen_sp_params, PSpec};
use b2::blake2sp;
use blake2s_simd as b2;

#[cfg(not(miri))]
use super::guard_pages::{Arena, Boxed};
#[cfg(miri)]
use super::guard_exact::{Arena, Boxed};

fn same(what: &str, got: &[u8], want: &[u8]) -> R {
    if got != want {
        return fail(&format!("placement: {}", what), format!("{}: {} here, {} in ordinary memory", what, hex(got), hex(want)));
    }
    Ok(())
}

fn intact(what: &str, got: &[u8], want: &[u8]) -> R {
    if got != want {
        return fail("input modified", format!("{} modified its input", what));
    }
    Ok(())
}

fn some_len(c: &mut Ctx) -> usize {
    if c.small {
        return match c.weighted(&[5, 3, 1]) {
            0 => c.pick(70) as usize,
            1 => 64 * c.pick(3) as usize + [0, 1, 63][c.pick(3) as usize],
            _ => c.pick(1200) as usize,
        };
    }
    if c.chance(1, 160) {
        return 64 * c.pick(4400) as usize + [0, 1, 63][c.pick(3) as usize];
    }
    let n = match c.weighted(&[4, 4, 3, 2]) {
        0 => c.pick(131) as usize,
        1 => 64 * c.pick(24) as usize + [0, 1, 63][c.pick(3) as usize],
        2 => c.pick(1500) as usize,
        _ => c.pick(9000) as usize,
    };
    n
}

/// Up to eight inputs of given lengths: separate arenas, or cut from one (overlapping, identical).
fn inputs(c: &mut Ctx, ar: &mut [Arena], lens: &[usize]) -> (Vec<&'static [u8]>, Vec<Vec<u8>>) {
    let max = *lens.iter().max().unwrap();
    match c.weighted(&[4, 1, 1]) {
        0 => {
            let plain: Vec<Vec<u8>> = lens.iter().map(|&n| data(c, n)).collect();
            let placed = plain.iter().zip(ar.iter_mut()).map(|(d, a)| a.place(c, d)).collect();
            (placed, plain)
        }
        1 => {
            c.fault("identical inputs");
            let d = data(c, max);
            let s = ar[0].place(c, &d);
            // Each ends flush with the common end.
            let placed: Vec<&'static [u8]> = lens.iter().map(|&n| &s[max - n..]).collect();
            let plain = placed.iter().map(|s| s.to_vec()).collect();
            (placed, plain)
        }
        _ => {
            c.fault("overlapping inputs");
            let d = data(c, max + 8);
            let s = ar[0].place(c, &d);
            let placed: Vec<&'static [u8]> = lens.iter().enumerate().map(|(i, &n)| &s[8 - i..][..n]).collect();
            let plain = placed.iter().map(|s| s.to_vec()).collect();
            (placed, plain)
        }
    }
}

/// For the interpreter: little data.
pub fn c12small(c: &mut Ctx) -> R {
    c.small = true;
    c12(c)
}

pub fn c12(c: &mut Ctx) -> R {
    let mut ar: Vec<Arena> = (0..8).map(|_| Arena::new()).collect();
    let pool = if c.chance(1, 2) { 8 } else { 1 };
    let mut a: Vec<Boxed<b2::State>> = Vec::new();
    let mut b: Vec<b2::State> = Vec::new();
    for i in 0..pool {
        let p = gen_params(c, true);
        let real = p.real();
        ev!(c, "hasher {}: {:?}", i, p);
        let s = c.call("Params::to_state", || real.to_state())?;
        a.push(Boxed::new(c, s));
        b.push(real.to_state());
    }
    let spp = gen_sp_params(c);
    let v = c.call("blake2sp::Params::to_state", || spp.real_sp().to_state())?;
    let mut sa: Boxed<blake2sp::State> = Boxed::new(c, v);
    let mut sb = spp.real_sp().to_state();
    let goal = if c.small { c.goal(4, 8) } else { c.goal(5, 16) };
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = c.pick(pool as u64) as usize;
        let w8 = if pool == 8 { 4 } else { 0 };
        let op = c.weighted(&[5, 3, w8, w8, 4, 3, 3, 3, 4, 2, 3, 2, 2]);
        c.sig(&[op as u64, pool as u64, i as u64]);
        c.fault("guarded placement");
        match op {
            0 => {
                let n = some_len(c);
                let d = data(c, n);
                let s = ar[0].place(c, &d);
                ev!(c, "hasher {}: update({} bytes at {:#x})", i, n, s.as_ptr() as usize & 0xfff);
                let h = a[i].get();
                c.call("State::update", || drop(h.update(s)))?;
                b[i].update(&d);
                intact("update", s, &d)?;
                a[i].check("State::update")?;
                c.bytes += n as u64;
            }
            1 => {
                ev!(c, "hasher {}: digest", i);
                let h = a[i].get();
                let g = c.call("State::finalize", || h.finalize())?;
                c.observe(g.as_bytes());
                same("finalize", g.as_bytes(), b[i].finalize().as_bytes())?;
                a[i].check("State::finalize")?;
            }
            2 => {
                let order = c.distinct(8, 8);
                let base = some_len(c);
                let uneven = c.chance(1, 2);
                let lens: Vec<usize> = (0..8).map(|_| if uneven { some_len(c) } else { base }).collect();
                let (placed, plain) = inputs(c, &mut ar, &lens);
                ev!(c, "update8 lanes {:?} lengths {:?}", order, lens);
                {
                    let mut m = pick_mut(&mut a, &order);
                    let mut it = m.iter_mut();
                    let mut nx = || it.next().unwrap().get();
                    let (s0, s1, s2, s3, s4, s5, s6, s7) = (nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx());
                    c.call("update8", || {
                        b2::update8(
                            s0, s1, s2, s3, s4, s5, s6, s7, placed[0], placed[1], placed[2], placed[3], placed[4], placed[5],
                            placed[6], placed[7],
                        )
                    })?;
                }
                for l in 0..8 {
                    b[order[l]].update(&plain[l]);
                    intact("update8", placed[l], &plain[l])?;
                    a[l].check("update8")?;
                }
            }
            3 => {
                let order = c.distinct(8, 8);
                ev!(c, "finalize8 lanes {:?}", order);
                let g = {
                    let mut m = pick_mut(&mut a, &order);
                    let mut it = m.iter_mut();
                    let mut nx = || it.next().unwrap().get();
                    let (s0, s1, s2, s3, s4, s5, s6, s7) = (nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx());
                    c.call("finalize8", || b2::finalize8(s0, s1, s2, s3, s4, s5, s6, s7))?
                };
                for l in 0..8 {
                    same("finalize8", g[l].as_bytes(), b[order[l]].finalize().as_bytes())?;
                    a[l].check("finalize8")?;
                }
            }
            4 => {
                let n = some_len(c);
                let d = data(c, n);
                let s = ar[0].place(c, &d);
                ev!(c, "blake2sp: update({} bytes at {:#x})", n, s.as_ptr() as usize & 0xfff);
                let h = sa.get();
                c.call("blake2sp::State::update", || drop(h.update(s)))?;
                sb.update(&d);
                intact("blake2sp update", s, &d)?;
                sa.check("blake2sp::State::update")?;
            }
            5 => {
                ev!(c, "blake2sp: digest");
                let h = sa.get();
                let g = c.call("blake2sp::State::finalize", || h.finalize())?;
                same("blake2sp finalize", g.as_bytes(), sb.finalize().as_bytes())?;
                sa.check("blake2sp::State::finalize")?;
            }
            6 => {
                // Calls that only read, on read-only objects.
                ev!(c, "count, debug text and clone of read-only hashers");
                c.fault("read-only hasher");
                let x = c.call("State::count", || a[i].frozen(|s| s.count()))?;
                let t = c.call("State::fmt", || a[i].frozen(|s| format!("{:?}", s)))?;
                let mut f = c.call("State::clone", || a[i].frozen(|s| s.clone()))?;
                if x != b[i].count() || t != format!("{:?}", b[i]) {
                    return fail("placement: observation", format!("{} / {}", x, t));
                }
                same("clone", f.finalize().as_bytes(), b[i].finalize().as_bytes())?;
                let x = c.call("blake2sp::State::count", || sa.frozen(|s| s.count()))?;
                let t = c.call("blake2sp::State::fmt", || sa.frozen(|s| format!("{:?}", s)))?;
                if x != sb.count() || t != format!("{:?}", sb) {
                    return fail("placement: blake2sp observation", format!("{} / {}", x, t));
                }
            }
            7 => {
                // Parameter sets in their own arena, configured from guarded slices, used read-only.
                let p = gen_params(c, true);
                let mut bp: Boxed<b2::Params> = Boxed::new(c, b2::Params::new());
                let (key, salt, pers) = (ar[0].place(c, &p.key), ar[1].place(c, &p.salt), ar[2].place(c, &p.personal));
                ev!(c, "parameters from guarded slices {:?}", p);
                let r = bp.get();
                c.call("Params setters", || {
                    r.hash_length(p.hash_length)
                        .key(key)
                        .salt(salt)
                        .personal(pers)
                        .fanout(p.fanout)
                        .max_depth(p.max_depth)
                        .max_leaf_length(p.max_leaf_length)
                        .node_offset(p.node_offset)
                        .node_depth(p.node_depth)
                        .inner_hash_length(p.inner_hash_length)
                        .last_node(p.last_node);
                })?;
                bp.check("Params setters")?;
                c.fault("read-only parameters");
                let g = c.call("Params::to_state", || bp.frozen(|r| (r.to_state().finalize(), r.clone().to_state().finalize())))?;
                let w = p.real().to_state().finalize();
                same("Params::to_state", g.0.as_bytes(), w.as_bytes())?;
                same("Params::clone", g.1.as_bytes(), w.as_bytes())?;
                let q = gen_sp_params(c);
                let mut bq: Boxed<blake2sp::Params> = Boxed::new(c, blake2sp::Params::new());
                let key = ar[3].place(c, &q.key);
                let r = bq.get();
                c.call("blake2sp::Params setters", || {
                    r.hash_length(q.hash_length).key(key);
                })?;
                bq.check("blake2sp::Params setters")?;
                let g = c.call("blake2sp::Params::to_state", || bq.frozen(|r| (r.to_state().finalize(), r.clone().to_state().finalize())))?;
                let w = q.real_sp().to_state().finalize();
                same("blake2sp::Params::to_state", g.0.as_bytes(), w.as_bytes())?;
                same("blake2sp::Params::clone", g.1.as_bytes(), w.as_bytes())?;
            }
            8 => {
                let p = gen_params(c, true);
                let n = 64 * (1 + if c.small { c.pick(2) } else if c.chance(1, 60) { c.pick(4000) } else { c.pick(20) } as usize);
                let four = c.chance(1, 2);
                let lanes = if four { 4 } else { 8 };
                let (placed, plain) = inputs(c, &mut ar, &vec![n; lanes]);
                ev!(c, "{} of {} bytes each, {:?}", if four { "hash4_exact" } else { "hash8_exact" }, n, p);
                let mut bp = Boxed::new(c, p.real());
                let g = c.call("hash_exact", || {
                    bp.frozen(|r| if four { hash4_exact(r, &placed).to_vec() } else { hash8_exact(r, &placed).to_vec() })
                })?;
                for l in 0..lanes {
                    let w = p.real();
                    let w = if four {
                        let v: Vec<&[u8]> = plain.iter().map(|v| &v[..]).collect();
                        hash4_exact(&w, &v)[l]
                    } else {
                        let v: Vec<&[u8]> = plain.iter().map(|v| &v[..]).collect();
                        hash8_exact(&w, &v)[l]
                    };
                    same("hash_exact", g[l].as_bytes(), w.as_bytes())?;
                    intact("hash_exact", placed[l], &plain[l])?;
                }
            }
            9 => {
                // Refused batches must not read out of bounds either.
                let p = PSpec::default();
                let kind = c.pick(4);
                let four = c.chance(1, 2);
                let (_, lens) = bad_lens(c, if four { 4 } else { 8 });
                let odd = c.pick(8) as usize;
                let (placed, _) = inputs(c, &mut ar, &lens);
                ev!(c, "refused batch of lengths {:?}", lens);
                c.fault("refused call");
                let r = p.real();
                let _ = c.try_call(|| {
                    if four {
                        drop(hash4_exact(&r, &placed))
                    } else {
                        drop(hash8_exact(&r, &placed))
                    }
                });
                let long = data(c, 33 + odd);
                let long = ar[0].place(c, &long);
                let mut bp: Boxed<b2::Params> = Boxed::new(c, b2::Params::new());
                let q = bp.get();
                let _ = c.try_call(|| match kind {
                    0 => drop(q.key(long)),
                    1 => drop(q.salt(&long[24..])),
                    2 => drop(q.personal(&long[24..])),
                    _ => drop(q.hash_length(33)),
                });
                bp.check("refused setter")?;
            }
            10 => {
                let ps: Vec<PSpec> = (0..8).map(|_| gen_params(c, false)).collect();
                let base = some_len(c);
                let uneven = c.chance(1, 2);
                let lens: Vec<usize> = (0..8).map(|_| if uneven { some_len(c) } else { base / 64 * 64 }).collect();
                let (placed, plain) = inputs(c, &mut ar, &lens);
                ev!(c, "hash8 of {:?} bytes", lens);
                let reals: Vec<b2::Params> = ps.iter().map(|p| p.real()).collect();
                let rr: Vec<&b2::Params> = reals.iter().collect();
                let g = c.call("hash8", || hash8(&rr, &placed))?;
                let v: Vec<&[u8]> = plain.iter().map(|v| &v[..]).collect();
                let w = hash8(&rr, &v);
                for l in 0..8 {
                    same("hash8", g[l].as_bytes(), w[l].as_bytes())?;
                    intact("hash8", placed[l], &plain[l])?;
                }
            }
            11 => {
                let n = some_len(c);
                let d = data(c, n);
                let s = ar[0].place(c, &d);
                ev!(c, "one-call digests of {} bytes", n);
                let g = c.call("blake2s", || b2::blake2s(s))?;
                same("blake2s()", g.as_bytes(), b2::blake2s(&d).as_bytes())?;
                let g = c.call("blake2sp", || b2::blake2sp::blake2sp(s))?;
                same("blake2sp()", g.as_bytes(), b2::blake2sp::blake2sp(&d).as_bytes())?;
                // Digests of every length, themselves guarded, compared with guarded slices of every length.
                let len = if c.chance(1, 3) { 32 } else { 1 + c.pick(32) as usize };
                let g = c.call("Params::hash_length", || b2::Params::new().hash_length(len).to_state().update(s).finalize())?;
                let m = if c.chance(2, 3) { len } else { c.pick(34) as usize };
                let mut x = g.as_bytes().to_vec();
                x.resize(m, 0);
                let y = ar[1].place(c, &x);
                ev!(c, "a digest of {} bytes compared with {} bytes", len, m);
                let mut held = Boxed::new(c, g);
                let eq = c.call("Hash::eq", || held.frozen(|g| *g == *y))?;
                if eq != (m == len) {
                    return fail("placement: Hash::eq", format!("a digest of {} bytes and its first {} bytes: equal = {}", len, m, eq));
                }
                let other = Boxed::new(c, g).frozen(|x| held.frozen(|g| *g == *x));
                let t = c.call("Hash::to_hex", || held.frozen(|g| (g.to_hex().to_string(), format!("{:?}", g))))?;
                let copy = held.frozen(|g| g.as_bytes().to_vec());
                if !other || t.0 != hex(&copy) || t.1 != format!("{:?}", g) {
                    return fail("placement: Hash", format!("a digest of {} bytes reads {:?}", len, t));
                }
                held.check("Hash")?;
            }
            _ => writes(c, &mut ar[0], &mut a[i], &mut b[i])?,
        }
    }
    for i in 0..pool {
        let h = a[i].get();
        let g = c.call("State::finalize", || h.finalize())?;
        same("finalize", g.as_bytes(), b[i].finalize().as_bytes())?;
        a[i].check("State::finalize")?;
    }
    let h = sa.get();
    let g = c.call("blake2sp::State::finalize", || h.finalize())?;
    same("blake2sp finalize", g.as_bytes(), sb.finalize().as_bytes())?;
    sa.check("blake2sp::State::finalize")
}

#[cfg(feature = "std")]
fn writes(c: &mut Ctx, ar: &mut Arena, a: &mut Boxed<b2::State>, b: &mut b2::State) -> R {
    use std::io::Write;
    let n = some_len(c);
    let d = data(c, n);
    let s = ar.place(c, &d);
    ev!(c, "write_all({})", n);
    let h = a.get();
    c.call("write_all", || h.write_all(s).is_ok())?;
    b.update(&d);
    a.check("write_all")
}
#[cfg(not(feature = "std"))]
fn writes(_: &mut Ctx, _: &mut Arena, _: &mut Boxed<b2::State>, _: &mut b2::State) -> R {
    Ok(())
}
