//! What the scenarios share.

use crate::ctx::{Ctx, R};
use crate::model::{Model, ModelSp};
use crate::params::PSpec;
use crate::rng::fill;
use b2::blake2sp;
use blake2s_simd as b2;

/// A BLAKE2s hasher next to its reference.
pub struct One {
    pub s: b2::State,
    pub m: Model,
    pub p: PSpec,
}

pub struct Sp {
    pub s: blake2sp::State,
    pub m: ModelSp,
    pub p: PSpec,
}

/// A hasher for `p`, made in one of the ways the API offers.
pub fn open(c: &mut Ctx, p: &PSpec) -> R<b2::State> {
    if *p == PSpec::default() {
        match c.pick(4) {
            0 => return c.call("State::new", b2::State::new),
            1 => return c.call("State::default", b2::State::default),
            2 => return c.call("Params::default", || b2::Params::default().to_state()),
            _ => {}
        }
    }
    c.call("Params::to_state", || p.real().to_state())
}

pub fn open_sp(c: &mut Ctx, p: &PSpec) -> R<blake2sp::State> {
    if *p == PSpec::default() {
        match c.pick(4) {
            0 => return c.call("blake2sp::State::new", blake2sp::State::new),
            1 => return c.call("blake2sp::State::default", blake2sp::State::default),
            2 => return c.call("blake2sp::Params::default", || blake2sp::Params::default().to_state()),
            _ => {}
        }
    }
    c.call("blake2sp::Params::to_state", || p.real_sp().to_state())
}

impl One {
    pub fn new(c: &mut Ctx, p: PSpec) -> R<One> {
        let s = open(c, &p)?;
        let m = Model::new(&p);
        Ok(One { s, m, p })
    }
    pub fn update(&mut self, c: &mut Ctx, d: &[u8]) -> R {
        c.bytes += d.len() as u64;
        let s = &mut self.s;
        c.call("State::update", || {
            s.update(d);
        })?;
        self.m.update(d);
        Ok(())
    }
    pub fn check(&mut self, c: &mut Ctx, what: &str) -> R {
        let s = &mut self.s;
        let h = c.call("State::finalize", || s.finalize())?;
        let want = self.m.digest();
        c.check_digest(what, h.as_bytes(), &want)
    }
}

impl Sp {
    pub fn new(c: &mut Ctx, p: PSpec) -> R<Sp> {
        let s = open_sp(c, &p)?;
        let m = ModelSp::new(p.hash_length, &p.key);
        Ok(Sp { s, m, p })
    }
    pub fn update(&mut self, c: &mut Ctx, d: &[u8]) -> R {
        c.bytes += d.len() as u64;
        let s = &mut self.s;
        c.call("blake2sp::State::update", || {
            s.update(d);
        })?;
        self.m.update(d);
        Ok(())
    }
    pub fn check(&mut self, c: &mut Ctx, what: &str) -> R {
        let s = &mut self.s;
        let h = c.call("blake2sp::State::finalize", || s.finalize())?;
        let want = self.m.digest();
        c.check_digest(what, h.as_bytes(), &want)
    }
}

/// Coarse size class, for state signatures.
pub fn size_class(n: usize) -> u64 {
    let lg = 64 - (n as u64).leading_zeros() as u64;
    let r = match n % 64 {
        0 => 0,
        1 => 1,
        63 => 2,
        _ => 3,
    };
    lg * 4 + r
}

/// Bytes from a (kind, seed) pair, so that data costs two tape entries whatever its length.
pub fn data(c: &mut Ctx, n: usize) -> Vec<u8> {
    crate::params::gen_bytes_exact(c, n)
}

/// Pseudo-random bytes without touching the tape.
pub fn bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(3, seed, &mut v);
    v
}

pub fn update8(s: &mut [b2::State], order: &[usize], inputs: &[&[u8]]) {
    let mut it = pick_mut(s, order).into_iter();
    let mut n = || it.next().unwrap();
    b2::update8(
        n(), n(), n(), n(), n(), n(), n(), n(),
        inputs[0], inputs[1], inputs[2], inputs[3], inputs[4], inputs[5], inputs[6], inputs[7],
    );
}

pub fn finalize8(s: &mut [b2::State], order: &[usize]) -> [b2::Hash; 8] {
    let mut it = pick_mut(s, order).into_iter();
    let mut n = || it.next().unwrap();
    b2::finalize8(n(), n(), n(), n(), n(), n(), n(), n())
}

/// Mutable references to eight distinct elements, in the given order.
pub fn pick_mut<'a, T>(s: &'a mut [T], order: &[usize]) -> Vec<&'a mut T> {
    let mut slots: Vec<Option<&'a mut T>> = s.iter_mut().map(Some).collect();
    order.iter().map(|&i| slots[i].take().expect("distinct lanes")).collect()
}

pub fn hash4_exact(p: &b2::Params, i: &[&[u8]]) -> [b2::Hash; 4] {
    b2::hash4_exact(p, i[0], i[1], i[2], i[3])
}
pub fn hash8_exact(p: &b2::Params, i: &[&[u8]]) -> [b2::Hash; 8] {
    b2::hash8_exact(p, i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7])
}
pub fn hash8(p: &[&b2::Params], i: &[&[u8]]) -> [b2::Hash; 8] {
    b2::hash8(
        p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7],
    )
}

/// Lengths that an exact batch must refuse, in one of many ways, some of which cancel out in a sum,
/// an exclusive or, or a narrow integer.
pub fn bad_lens(c: &mut Ctx, lanes: usize) -> (u64, Vec<usize>) {
    let base = 64 * (1 + c.pick(6) as usize);
    let odd = c.pick(lanes as u64) as usize;
    let other = (odd + 1 + c.pick(lanes as u64 - 1) as usize) % lanes;
    let less = base.saturating_sub(64);
    let kind = c.weighted(&[2, 4, 2, 2, 2, 2, 3, 3, 2, 2, 2, 1]);
    let mut v = vec![base; lanes];
    match kind {
        0 => v = vec![0; lanes],
        // Equal lengths that are not a multiple of the block.
        1 => {
            let n = match c.weighted(&[3, 2, 1]) {
                0 => base - 1 - c.pick(63) as usize,
                1 => base - 8 * (1 + c.pick(7) as usize),
                _ => base + 65536 - 32,
            };
            v = vec![n; lanes];
        }
        2 => v[odd] = base + 64,
        3 => v[odd] = less,
        4 => v[odd] = base - 1 - (base / 2) % 63,
        5 => v[odd] = if base > 64 || c.chance(1, 2) { 0 } else { base * 2 },
        // Two alike in being different.
        6 => {
            let n = if c.chance(1, 2) { base + 64 } else { less };
            v[odd] = n;
            v[other] = n;
        }
        // One has what the other lacks, in blocks or in bytes.
        7 => {
            let k = if c.chance(1, 2) { 64 } else { 1 + c.pick(64) as usize };
            v[odd] = base + k;
            v[other] = base - k;
        }
        // Halves, or every other.
        8 => {
            let far = c.chance(1, 2);
            for l in 0..lanes {
                if if far { l >= lanes / 2 } else { l % 2 == 1 } {
                    v[l] = base + 64;
                }
            }
        }
        // Any number of lanes differ, by any numbers of blocks.
        9 => {
            for x in &mut v {
                *x = 64 * (1 + c.pick(4) as usize);
            }
            if v.iter().all(|&x| x == v[0]) {
                v[odd] += 64;
            }
        }
        // Alike in the low bits.
        10 => v[odd] = base + if c.chance(1, 2) { 256 } else { 65536 },
        // All but one.
        _ => {
            v = vec![base + 64; lanes];
            v[odd] = base;
        }
    }
    (kind as u64, v)
}
