//! C15: streams, batch lanes, BLAKE2sp leaves and one-shot inputs beyond 2^31, 2^32, 2^33 bytes.
//!
//! The library really hashes every byte. `c15` ages eight hashers together once per process, keeping
//! clones shortly before each boundary, and then runs many short histories from those clones (and
//! fresh hashers) across the boundaries. `c15sp` takes BLAKE2sp across the point where its leaves
//! pass 2^32 (32 GiB of input). `c15one` hands single calls slices longer than 4 GiB.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::deep::{lane_spec, model_at, model_sp_at, sp_spec, Pattern, DEPTHS, LANES, SP_DEPTHS};
use crate::model::Model;
use crate::params::gen_len;
use crate::rng::Rng;
use b2::blake2sp;
use blake2s_simd as b2;
use std::sync::OnceLock;

pub(super) fn pattern() -> &'static Pattern {
    static P: OnceLock<Pattern> = OnceLock::new();
    P.get_or_init(Pattern::new)
}

/// How many lanes are aged: without the vector code (no_std) the eight would take too long.
const AGED: usize = if cfg!(feature = "std") { LANES } else { 2 };

struct World {
    /// at[d][i]: lane i at DEPTHS[d].
    at: Vec<Vec<b2::State>>,
}

static WORLDS: [OnceLock<Result<World, String>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];

/// The world that reaches `depths` of the DEPTHS.
fn world(depths: usize) -> Result<&'static World, String> {
    WORLDS[depths - 2]
        .get_or_init(|| crate::ctx::guarded(|| build(depths)).map_err(|m| format!("while hashing up to {} bytes: {}", DEPTHS[depths - 1], m)))
        .as_ref()
        .map_err(|m| m.clone())
}

fn build(depths: usize) -> World {
    let pat = pattern();
    let mut s: Vec<b2::State> = (0..AGED).map(|i| lane_spec(i).0.real().to_state()).collect();
    let mut rng = Rng::new(15);
    let mut pos = 0u64;
    let mut at = vec![];
    for &d in &DEPTHS[..depths] {
        while pos < d {
            let n = (d - pos).min((1 << 19) + rng.below(1 << 20)) as usize;
            if AGED == LANES && rng.below(16) > 0 {
                let inputs: Vec<&[u8]> = (0..LANES).map(|i| pat.at(lane_spec(i).1, pos, n)).collect();
                let shift = rng.below(8) as usize;
                let order: Vec<usize> = (0..8).map(|i| (i + shift) % 8).collect();
                let turned: Vec<&[u8]> = order.iter().map(|&i| inputs[i]).collect();
                update8(&mut s, &order, &turned);
            } else {
                for (i, s) in s.iter_mut().enumerate() {
                    s.update(pat.at(lane_spec(i).1, pos, n));
                }
            }
            pos += n as u64;
        }
        at.push(s.clone());
    }
    World { at }
}

/// Done before forking, so that shrinking and replaying pay for it once.
pub fn prepare() {
    let _ = world(2);
}
pub fn prepare_deeper() {
    let _ = world(4);
}

struct Lane {
    s: b2::State,
    m: Model,
    rot: usize,
    keyed: bool,
}

pub fn c15(c: &mut Ctx) -> R {
    histories(c, 2)
}
pub fn c15deeper(c: &mut Ctx) -> R {
    histories(c, 4)
}

fn histories(c: &mut Ctx, depths: usize) -> R {
    let pat = pattern();
    let w = match world(depths) {
        Ok(w) => w,
        Err(m) => {
            c.lib_calls += 1;
            return fail("panic while ageing hashers", m);
        }
    };
    let n = if c.chance(2, 3) { 8 } else { 1 };
    // Fresh lanes are simplest; then each boundary.
    let style = c.weighted(&[2, 3, 3]);
    let common = c.pick(depths as u64) as usize;
    let mut pool: Vec<Lane> = vec![];
    for i in 0..n {
        let lane = c.pick(AGED as u64) as usize;
        let (p, rot) = lane_spec(lane);
        let age = match style {
            0 => Some(common),
            1 => Some(c.pick(depths as u64) as usize),
            _ => {
                let k = c.pick(depths as u64 + 1) as usize;
                if k == 0 { None } else { Some(k - 1) }
            }
        };
        let (s, m) = match age {
            Some(d) => {
                let k = &w.at[d][lane];
                (c.call("State::clone", || k.clone())?, model_at(pat, lane, d))
            }
            None => (c.call("Params::to_state", || p.real().to_state())?, Model::new(&p)),
        };
        ev!(c, "hasher {}: lane {} at {} bytes", i, lane, m.len);
        let mut l = Lane { s, m, rot, keyed: !p.key.is_empty() };
        verify(c, &mut l, i)?;
        pool.push(l);
    }
    if n == 8 && c.chance(1, 2) {
        // All together to just before the boundary, so that the batch crosses it.
        c.probe("batch taken up to its boundary");
        let lens: Vec<usize> = pool.iter().map(|l| near(c, l)).collect();
        feed8(c, &mut pool, &lens)?;
    }
    let goal = c.goal(6, 30);
    let mut done = 0;
    while c.more(done, goal) {
        done += 1;
        let i = c.pick(n as u64) as usize;
        match c.weighted(&[4, 5, 2, 2, 1]) {
            0 => {
                let k = if c.chance(1, 3) { near(c, &pool[i]) } else { gen_len(c, pool[i].m.len, 1) };
                ev!(c, "hasher {}: update({})", i, k);
                feed(c, &mut pool[i], k)?;
            }
            1 if n == 8 => {
                let same = c.chance(1, 3);
                let first = gen_len(c, pool[0].m.len, 1);
                let lens: Vec<usize> = (0..8)
                    .map(|i| {
                        if same {
                            first
                        } else if c.chance(1, 3) {
                            near(c, &pool[i])
                        } else {
                            gen_len(c, pool[i].m.len, 1)
                        }
                    })
                    .collect();
                feed8(c, &mut pool, &lens)?;
            }
            2 => verify(c, &mut pool[i], i)?,
            3 if n == 8 => {
                ev!(c, "finalize8");
                let mut s: Vec<b2::State> = pool.iter().map(|l| l.s.clone()).collect();
                let order = c.distinct(8, 8);
                let h = c.call("finalize8", || finalize8(&mut s, &order))?;
                for (k, &i) in order.iter().enumerate() {
                    let want = pool[i].m.digest();
                    c.check_digest(&format!("finalize8 {}", age(&pool[i])), h[k].as_bytes(), &want)?;
                }
            }
            _ => {
                let last = c.chance(1, 2);
                ev!(c, "hasher {}: set_last_node({})", i, last);
                let s = &mut pool[i].s;
                c.call("State::set_last_node", || {
                    s.set_last_node(last);
                })?;
                pool[i].m.last_node = last;
            }
        }
    }
    for (i, l) in pool.iter_mut().enumerate() {
        verify(c, l, i)?;
    }
    Ok(())
}

fn age(l: &Lane) -> &'static str {
    match l.m.len {
        0..=0x7fff_ffff => "below 2 GiB",
        0x8000_0000..=0xffff_ffff => "between 2 and 4 GiB",
        _ => "beyond 4 GiB",
    }
}

/// A length that ends next to the next boundary, when one is near.
fn near(c: &mut Ctx, l: &Lane) -> usize {
    let fed = l.m.len + if l.keyed { 64 } else { 0 };
    for k in 31..36 {
        let b = 1u64 << k;
        if b > fed && b - fed <= 1 << 17 {
            let d = (b - fed) as i64 + [0, 1, -1, 64, -64, 65, -65, -128, 128][c.pick(9) as usize] - 64 * c.pick(20) as i64;
            return d.max(0) as usize;
        }
    }
    64 * c.pick(40) as usize
}

fn feed(c: &mut Ctx, l: &mut Lane, n: usize) -> R {
    let d = pattern().at(l.rot, l.m.len, n);
    c.bytes += n as u64;
    let before = l.m.len;
    let s = &mut l.s;
    c.call("State::update", || {
        s.update(d);
    })?;
    l.m.update(d);
    crossing(c, before, l.m.len);
    Ok(())
}

fn crossing(c: &mut Ctx, a: u64, b: u64) {
    for (k, name) in [(31, "a stream crossed 2^31"), (32, "a stream crossed 2^32"), (33, "a stream crossed 2^33"), (34, "a stream crossed 2^34")] {
        if a < 1 << k && b >= 1 << k {
            c.probe(name);
        }
    }
}

fn feed8(c: &mut Ctx, pool: &mut [Lane], lens: &[usize]) -> R {
    let order = c.distinct(8, 8);
    let inputs: Vec<&[u8]> = order.iter().map(|&i| pattern().at(pool[i].rot, pool[i].m.len, lens[i])).collect();
    ev!(c, "update8: hashers {:?}, lengths {:?}", order, inputs.iter().map(|d| d.len()).collect::<Vec<_>>());
    let mut states: Vec<b2::State> = vec![];
    for l in pool.iter() {
        states.push(l.s.clone());
    }
    c.call("update8", || update8(&mut states, &order, &inputs))?;
    for (i, s) in states.into_iter().enumerate() {
        pool[i].s = s;
    }
    for (k, &i) in order.iter().enumerate() {
        c.bytes += inputs[k].len() as u64;
        let before = pool[i].m.len;
        pool[i].m.update(inputs[k]);
        crossing(c, before, pool[i].m.len);
    }
    let mix = pool.iter().map(|l| l.m.len >> 31).collect::<std::collections::BTreeSet<_>>();
    if mix.len() > 1 {
        c.probe("lanes of different ages in one batch");
    }
    Ok(())
}

fn verify(c: &mut Ctx, l: &mut Lane, i: usize) -> R {
    let s = &mut l.s;
    let n = c.call("State::count", || s.count())?;
    c.check_count(age(l), n, l.m.len)?;
    let s = &mut l.s;
    let h = c.call("State::finalize", || s.finalize())?;
    let want = l.m.digest();
    ev!(c, "hasher {}: {} bytes, digest {}", i, n, hex(h.as_bytes()));
    c.sig(&[l.m.len >> 31, l.m.len % 64, size_class(((l.m.len + (1 << 20)) & 0x1f_ffff) as usize), l.keyed as u64]);
    let what = age(l);
    c.check_digest(what, h.as_bytes(), &want)
}

/// BLAKE2sp past 2^32 bytes of input, and past 2^32 bytes in each leaf.
pub fn c15sp(c: &mut Ctx) -> R {
    let pat = pattern();
    let which = c.pick(2) as usize;
    let spec = sp_spec(which);
    let mut s = open_sp(c, &spec)?;
    ev!(c, "blake2sp {:?} bytes of key", spec.key.len());
    let scale = 1 << c.pick(4);
    let mut pos = 0u64;
    for d in 0..SP_DEPTHS.len() {
        let goal = SP_DEPTHS[d];
        // Long pieces up to shortly before the boundary; the first leaves a partial block behind.
        let mut rng = Rng::new(c.pick(1 << 20));
        let s2 = &mut s;
        c.call("blake2sp::State::update", || {
            while pos < goal {
                let n = (goal - pos).min(1 + rng.below((1 << 21) / scale)) as usize;
                s2.update(pat.at(0, pos, n));
                pos += n as u64;
            }
        })?;
        let mut m = model_sp_at(pat, which, d);
        let span = if d == 0 { 1u64 << 17 } else { 1 << 20 };
        let mut steps = 0;
        c.marks.push(c.tape.len());
        loop {
            c.steps += 1;
            steps += 1;
            let got = c.call("blake2sp::State::count", || s.count())?;
            c.check_count("blake2sp", got, pos)?;
            if steps % 2 == 1 || steps > 400 {
                let h = c.call("blake2sp::State::finalize", || s.finalize())?;
                ev!(c, "blake2sp at {}: {}", pos, hex(h.as_bytes()));
                let want = m.digest();
                c.check_digest(if pos >> 35 > 0 { "blake2sp beyond 32 GiB" } else { "blake2sp below 32 GiB" }, h.as_bytes(), &want)?;
            }
            c.sig(&[pos >> 32, pos % 1024, d as u64]);
            if pos >= goal + span || steps > 420 {
                break;
            }
            let left = (goal + span / 2).saturating_sub(pos);
            let n = match c.weighted(&[2, 3, 2, 1]) {
                0 => gen_len(c, pos, 1),
                1 => (span / 64) as usize + c.pick(span / 32) as usize,
                // Right up to the boundary: where leaf 0 starts its crossing block, or nearby.
                2 if left > 0 && left <= 1 << 20 => {
                    (left as i64 + [0, 64, -64, 512, -512, -1, 1, 448][c.pick(8) as usize]).max(0) as usize
                }
                _ => 512 * c.pick(64) as usize + c.pick(513) as usize,
            };
            let data = pat.at(0, pos, n);
            c.bytes += n as u64;
            c.call("blake2sp::State::update", || {
                s.update(data);
            })?;
            m.update(data);
            pos += n as u64;
        }
        if pos >> 35 > 0 {
            c.probe("blake2sp leaves crossed 2^32");
        } else if pos >> 34 > 0 {
            c.probe("blake2sp leaves crossed 2^31");
        } else {
            c.probe("blake2sp input crossed 2^32");
        }
    }
    c.bytes += pos;
    Ok(())
}

/// `len` bytes of the repeated pattern in one piece of address space, backed by 16 MiB of memory.
pub(super) fn endless() -> &'static [u8] {
    static E: OnceLock<(usize, usize)> = OnceLock::new();
    let &(p, n) = E.get_or_init(|| unsafe {
        use crate::sys;
        let unit = 16 << 20;
        let n = (1usize << 35) + (64 << 20);
        let base = sys::map(n, sys::PROT_NONE, sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE);
        let name = b"pattern\0";
        let fd = sys::memfd_create(name.as_ptr() as *const _, 0);
        assert!(fd >= 0, "memfd_create failed");
        assert_eq!(sys::ftruncate(fd, unit as i64), 0);
        let w = sys::mmap(base as *mut _, unit, sys::PROT_RW, sys::MAP_SHARED | sys::MAP_FIXED, fd, 0);
        assert!(w as isize != -1);
        for i in 0..unit / crate::deep::PERIOD {
            std::ptr::copy_nonoverlapping(pattern().0.as_ptr(), base.add(i * crate::deep::PERIOD), crate::deep::PERIOD);
        }
        let mut at = 0;
        while at < n {
            let r = sys::mmap(base.add(at) as *mut _, unit, sys::PROT_READ, sys::MAP_SHARED | sys::MAP_FIXED, fd, 0);
            assert!(r as isize != -1, "mmap failed");
            at += unit;
        }
        (base as usize, n)
    });
    unsafe { std::slice::from_raw_parts(p as *const u8, n) }
}

/// What the model says lane `i`'s parameters give for `n` bytes, `n` a little over a depth.
fn expect(i: usize, d: usize, n: u64) -> Vec<u8> {
    let pat = pattern();
    let (_, rot) = lane_spec(i);
    let mut m = model_at(pat, i, d);
    let at = m.len;
    m.update(pat.at(rot, at, (n - at) as usize));
    m.digest()
}

pub fn c15one(c: &mut Ctx) -> R {
    let op = c.pick(2) as usize;
    one(c, op)
}
pub fn c15one_sp(c: &mut Ctx) -> R {
    one(c, 2)
}
pub fn c15one_hash4_exact(c: &mut Ctx) -> R {
    one(c, 3)
}
pub fn c15one_hash8_exact(c: &mut Ctx) -> R {
    one(c, 4)
}
pub fn c15one_hash8(c: &mut Ctx) -> R {
    one(c, 5)
}
pub fn c15one_update8(c: &mut Ctx) -> R {
    one(c, 6)
}

fn one(c: &mut Ctx, op: usize) -> R {
    let e = endless();
    c.steps += 1;
    c.marks.push(c.tape.len());
    // Past 2^32, up to it exactly, or somewhere around it or 2^31.
    let (d, extra) = match c.weighted(&[10, 2, 1]) {
        0 => (1, (1 << 16) + 1 + c.pick(1 << 14)),
        1 => (1, 1 << 16),
        _ => (c.pick(2) as usize, c.pick(1 << 17)),
    };
    let depth = DEPTHS[d];
    let spread = if c.chance(1, 4) { 1 } else { 1 << 14 };
    let exact = (depth + extra) / 64 * 64;
    let wide = cfg!(feature = "std");
    let input = |i: usize, n: u64| {
        let rot = lane_spec(i).1;
        &e[rot..rot + n as usize]
    };
    match op {
        0 => {
            let n = depth + extra;
            ev!(c, "blake2s of {} bytes", n);
            c.bytes += n;
            let h = c.call("blake2s", || b2::blake2s(input(4, n)))?;
            c.probe("blake2s of a huge slice");
            c.check_digest("blake2s of a huge slice", h.as_bytes(), &expect(4, d, n))?;
        }
        1 => {
            let lane = c.pick(8) as usize;
            let n = depth + extra;
            let head = c.pick(200);
            ev!(c, "lane {}: update({}), update({})", lane, head, n - head);
            c.bytes += n;
            let mut s = lane_spec(lane).0.real().to_state();
            let all = input(lane, n);
            c.call("State::update", || {
                s.update(&all[..head as usize]).update(&all[head as usize..]);
            })?;
            c.probe("update with a huge slice");
            let got = c.call("State::count", || s.count())?;
            c.check_count("after a huge slice", got, n)?;
            let h = c.call("State::finalize", || s.finalize())?;
            c.check_digest("update with a huge slice", h.as_bytes(), &expect(lane, d, n))?;
        }
        2 => {
            let big = wide && c.chance(1, 2);
            let k = if big { 2 } else { 0 };
            let n = SP_DEPTHS[k] + c.pick(1 << if big { 20 } else { 17 });
            let data = &e[..n as usize];
            c.bytes += n;
            ev!(c, "blake2sp of {} bytes", n);
            let h = c.call("blake2sp", || blake2sp::blake2sp(data))?;
            c.probe(if big { "blake2sp of more than 32 GiB" } else { "blake2sp of about 4 GiB" });
            let mut m = model_sp_at(pattern(), 0, k);
            let at = m.len;
            m.update(pattern().at(0, at, (n - at) as usize));
            c.check_digest("blake2sp of a huge slice", h.as_bytes(), &m.digest())?;
        }
        3 | 4 => {
            // All lanes share the parameters here: kinds 0..4, streams 0 and 1.
            let kind = c.pick(4) as usize;
            let lanes: Vec<usize> = (0..if op == 3 { 4 } else { 8 }).map(|_| kind + 4 * c.pick(2) as usize).collect();
            let p = lane_spec(kind).0.real();
            let inputs: Vec<&[u8]> = lanes.iter().map(|&i| input(i, exact)).collect();
            ev!(c, "{} of {} bytes each, kind {}", if op == 3 { "hash4_exact" } else { "hash8_exact" }, exact, kind);
            c.bytes += exact * lanes.len() as u64;
            let h: Vec<b2::Hash> = if op == 3 {
                c.call("hash4_exact", || hash4_exact(&p, &inputs))?.to_vec()
            } else {
                c.call("hash8_exact", || hash8_exact(&p, &inputs))?.to_vec()
            };
            c.probe(if op == 3 { "hash4_exact of huge slices" } else { "hash8_exact of huge slices" });
            for (k, &i) in lanes.iter().enumerate() {
                c.check_digest("exact batch of huge slices", h[k].as_bytes(), &expect(i, d, exact))?;
            }
        }
        5 => {
            // hash8: kinds without a key, any lengths.
            let lanes: Vec<usize> = (0..8).map(|_| [0, 3, 4, 7][c.pick(4) as usize]).collect();
            let base = depth + extra.min(100_000);
            let lens: Vec<u64> = lanes.iter().map(|_| base + c.pick(spread)).collect();
            let ps: Vec<b2::Params> = lanes.iter().map(|&i| lane_spec(i).0.real()).collect();
            let refs: Vec<&b2::Params> = ps.iter().collect();
            let inputs: Vec<&[u8]> = lanes.iter().zip(&lens).map(|(&i, &n)| input(i, n)).collect();
            ev!(c, "hash8 of {:?} bytes", lens);
            c.bytes += lens.iter().sum::<u64>();
            let h = c.call("hash8", || hash8(&refs, &inputs))?;
            c.probe("hash8 of huge slices");
            for k in 0..8 {
                c.check_digest("hash8 of huge slices", h[k].as_bytes(), &expect(lanes[k], d, lens[k]))?;
            }
        }
        _ => {
            let lanes: Vec<usize> = (0..8).map(|_| c.pick(8) as usize).collect();
            let base = depth + extra.min(100_000);
            let lens: Vec<u64> = lanes.iter().map(|_| base + c.pick(spread)).collect();
            let mut s: Vec<b2::State> = lanes.iter().map(|&i| lane_spec(i).0.real().to_state()).collect();
            let inputs: Vec<&[u8]> = lanes.iter().zip(&lens).map(|(&i, &n)| input(i, n)).collect();
            ev!(c, "update8 with {:?} bytes", lens);
            c.bytes += lens.iter().sum::<u64>();
            c.call("update8", || update8(&mut s, &[0, 1, 2, 3, 4, 5, 6, 7], &inputs))?;
            c.probe("update8 with huge slices");
            let h = c.call("finalize8", || finalize8(&mut s, &[0, 1, 2, 3, 4, 5, 6, 7]))?;
            for k in 0..8 {
                let got = c.call("State::count", || s[k].count())?;
                c.check_count("after a huge batch", got, lens[k])?;
                c.check_digest("update8 with huge slices", h[k].as_bytes(), &expect(lanes[k], d, lens[k]))?;
            }
        }
    }
    Ok(())
}
