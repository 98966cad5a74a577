//! The relative properties (C03 to C08) on the far side of 4 GiB: hashers that have really been fed
//! that much, from one huge slice or many pieces, are observed, counted, written to, cloned and
//! batched around the boundary. The oracle is a twin fed the plain way.

use super::common::*;
use super::deep::{endless, pattern};
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params, PSpec};
use crate::rng::Rng;
use b2::blake2sp;
use blake2s_simd as b2;

const GIB4: u64 = 1 << 32;

/// What the two kinds of hasher have in common.
trait Far {
    const NAME: &'static str;
    fn make(c: &mut Ctx, p: &PSpec) -> R<Self>
    where
        Self: Sized;
    fn feed(&mut self, d: &[u8]);
    fn digest(&mut self) -> Vec<u8>;
    fn len(&self) -> u64;
    fn text(&self) -> String;
}
impl Far for b2::State {
    const NAME: &'static str = "blake2s";
    fn make(c: &mut Ctx, p: &PSpec) -> R<Self> {
        open(c, p)
    }
    fn feed(&mut self, d: &[u8]) {
        self.update(d);
    }
    fn digest(&mut self) -> Vec<u8> {
        self.finalize().as_bytes().to_vec()
    }
    fn len(&self) -> u64 {
        self.count()
    }
    fn text(&self) -> String {
        format!("{:?}", self)
    }
}
impl Far for blake2sp::State {
    const NAME: &'static str = "blake2sp";
    fn make(c: &mut Ctx, p: &PSpec) -> R<Self> {
        open_sp(c, p)
    }
    fn feed(&mut self, d: &[u8]) {
        self.update(d);
    }
    fn digest(&mut self) -> Vec<u8> {
        self.finalize().as_bytes().to_vec()
    }
    fn len(&self) -> u64 {
        self.count()
    }
    fn text(&self) -> String {
        format!("{:?}", self)
    }
}

/// Where a run's first, long leg ends: shortly before a point that is 4 GiB for the count or, with
/// the key block, for the compression function.
fn first_leg(c: &mut Ctx) -> u64 {
    GIB4 - 512 - [0u64, 64, 1, 512, 4096][c.pick(5) as usize] - c.pick(3000)
}

/// Feeds `n` bytes of the stream from `pos` in pieces of about a megabyte.
fn plain<H: Far>(h: &mut H, rot: usize, pos: u64, n: u64) {
    let mut rng = Rng::new(n ^ pos);
    let mut at = pos;
    while at < pos + n {
        let k = (pos + n - at).min(1 + rng.below(1 << 21)) as usize;
        h.feed(pattern().at(rot, at, k));
        at += k as u64;
    }
}

fn step_len(c: &mut Ctx, pos: u64) -> usize {
    match c.weighted(&[3, 2, 1]) {
        0 => gen_len(c, pos, 1),
        1 => 64 * c.pick(20) as usize,
        // Right up to the boundary, or next to it.
        _ if pos < GIB4 && GIB4 - pos < 1 << 16 => {
            ((GIB4 - pos) as i64 + [0, 1, -1, 64, -64, 512][c.pick(6) as usize]).max(0) as usize
        }
        _ => c.pick(2000) as usize,
    }
}

fn same<H: Far>(c: &mut Ctx, class: &str, got: &mut H, want: &mut H) -> R {
    let g = c.call("finalize", || got.digest())?;
    let w = c.call("finalize of the twin", || want.digest())?;
    c.observe(&g);
    if g != w {
        return fail(&format!("{}: {}", class, H::NAME), format!("digest {}, the twin's {}", hex(&g), hex(&w)));
    }
    let (g, w) = (got.len(), want.len());
    if g != w {
        return fail(&format!("{}: {}", class, H::NAME), format!("count {}, the twin's {}", g, w));
    }
    Ok(())
}

fn begin(c: &mut Ctx, p: &PSpec, name: &str, rot: usize) {
    c.marks.push(c.tape.len());
    c.steps += 1;
    ev!(c, "{} {:?}, stream at {}", name, p, rot);
}

// C03: digests, counts and debug text taken on the way, then and now.

fn observed<H: Far>(c: &mut Ctx, p: &PSpec) -> R {
    let rot = c.pick(1 << 19) as usize;
    begin(c, p, H::NAME, rot);
    let (mut h, mut t) = (H::make(c, p)?, H::make(c, p)?);
    let leg = first_leg(c);
    let looks = 1 + c.pick(40);
    let mut rng = Rng::new(c.pick(1 << 30));
    c.call("the long leg", || {
        let mut at = 0;
        for k in 0..looks {
            let n = if k + 1 == looks { leg - at } else { rng.below((leg - at) / 4) };
            plain(&mut h, rot, at, n);
            at += n;
            let a = h.digest();
            let _ = (h.text(), h.len());
            assert_eq!(a, h.digest(), "two digests in a row differ after {} bytes", at);
        }
        plain(&mut t, rot, 0, leg);
    })?;
    ev!(c, "{} bytes, looked at {} times", leg, looks);
    c.fault("long stream interrupted by observations");
    let mut pos = leg;
    let goal = c.goal(20, 60);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let n = step_len(c, pos);
        let d = pattern().at(rot, pos, n);
        let look = c.pick(4);
        ev!(c, "update({}) at {}, look {}", n, pos, look);
        c.call("update", || {
            h.feed(d);
            t.feed(d);
            if look & 1 > 0 {
                h.digest();
            }
            if look & 2 > 0 {
                let _ = (h.text(), h.len());
            }
        })?;
        pos += n as u64;
        c.sig(&[pos >> 32, pos % 64, look]);
    }
    c.bytes += 2 * pos;
    same(c, "observed beyond 4 GiB", &mut h, &mut t)
}

pub fn c03far(c: &mut Ctx) -> R {
    if c.chance(1, 2) {
        let p = gen_params(c, true);
        observed::<b2::State>(c, &p)
    } else {
        let p = gen_sp_params(c);
        observed::<blake2sp::State>(c, &p)
    }
}

// C04: the count.

fn counted<H: Far>(c: &mut Ctx, p: &PSpec) -> R {
    let rot = c.pick(1 << 19) as usize;
    begin(c, p, H::NAME, rot);
    let mut h = H::make(c, p)?;
    let mut pos = 0u64;
    // BLAKE2sp is fast enough to go on to where eight leaves of 2^30 bytes each are behind it.
    let goal = if H::NAME == "blake2sp" { [5u64, 9][c.pick(2) as usize] << 30 } else { GIB4 + (1 << 28) };
    if c.chance(1, 3) {
        let n = GIB4 - 3000 + c.pick(6000);
        ev!(c, "update({}) in one call", n);
        let d = &endless()[rot..rot + n as usize];
        c.call("update", || h.feed(d))?;
        pos += n;
    }
    let mut near = 0;
    loop {
        let got = c.call("count", || h.len())?;
        c.check_count(&format!("{} beyond 4 GiB", H::NAME), got, pos)?;
        c.sig(&[pos >> 28, pos % 64, 4]);
        if pos >= goal {
            break;
        }
        let n = if (GIB4 - 4096..GIB4 + 4096).contains(&pos) && near < 300 {
            near += 1;
            step_len(c, pos) as u64
        } else if pos < GIB4 {
            ((1 << 24) + c.pick(1 << 26)).min(GIB4 - c.pick(4096).min(GIB4 - pos - 1) - pos)
        } else {
            (1 << 24) + c.pick(1 << 26)
        };
        let at = pos;
        c.call("update", || plain(&mut h, rot, at, n))?;
        if c.chance(1, 8) {
            c.call("finalize", || h.digest())?;
        }
        pos += n;
    }
    c.bytes += pos;
    ev!(c, "counted up to {}", pos);
    Ok(())
}

pub fn c04far(c: &mut Ctx) -> R {
    match c.weighted(&[2, 3, 2]) {
        0 => {
            let p = gen_params(c, true);
            counted::<b2::State>(c, &p)
        }
        1 => {
            let p = gen_sp_params(c);
            counted::<blake2sp::State>(c, &p)
        }
        _ => {
            // Eight together.
            let mut far = aged(c, GIB4 + (1 << 20))?;
            for _ in 0..3 {
                for i in 0..8 {
                    let got = c.call("State::count", || far.s[i].count())?;
                    c.check_count("blake2s beyond 4 GiB, fed in batches", got, far.pos[i])?;
                }
                batch(c, &mut far)?;
            }
            Ok(())
        }
    }
}

// C05: huge writes.

#[cfg(feature = "std")]
fn written<H: Far + std::io::Write>(c: &mut Ctx, p: &PSpec) -> R {
    use std::io::{IoSlice, Read};
    let rot = c.pick(1 << 19) as usize;
    begin(c, p, H::NAME, rot);
    let (mut h, mut t) = (H::make(c, p)?, H::make(c, p)?);
    let n = match c.pick(3) {
        0 => GIB4,
        1 => GIB4 + 1 + c.pick(1 << 20),
        _ => (1 << 31) + c.pick(1 << 20),
    };
    let all = &endless()[rot..rot + n as usize];
    let how = c.pick(4);
    ev!(c, "{} of {} bytes", ["write", "write_all", "write_vectored", "io::copy"][how as usize], n);
    let mut acked = 0u64;
    match how {
        0 => {
            while acked < n {
                let before = acked;
                match c.call("write", || h.write(&all[before as usize..]))? {
                    Ok(0) => return fail("sink: write", format!("write of {} bytes made no progress", n - before)),
                    Ok(k) if k as u64 > n - before => return fail("sink: write", format!("write of {} bytes claims {}", n - before, k)),
                    Ok(k) => acked += k as u64,
                    Err(e) => return fail("sink: write", format!("write of {} bytes failed: {}", n - before, e)),
                }
                if c.pick(4) == 3 {
                    break;
                }
            }
        }
        1 => {
            if let Err(e) = c.call("write_all", || h.write_all(all))? {
                return fail("sink: write_all", format!("write_all of {} bytes failed: {}", n, e));
            }
            acked = n;
        }
        2 => {
            let cut = c.pick(1 << 20) as usize;
            let v = [IoSlice::new(&all[..cut]), IoSlice::new(&[]), IoSlice::new(&all[cut..])];
            match c.call("write_vectored", || h.write_vectored(&v))? {
                Ok(k) if k as u64 > n || k == 0 => return fail("sink: write_vectored", format!("write_vectored of {} bytes claims {}", n, k)),
                Ok(k) => acked = k as u64,
                Err(e) => return fail("sink: write_vectored", format!("write_vectored of {} bytes failed: {}", n, e)),
            }
        }
        _ => {
            let mut src = all.take(n);
            match c.call("io::copy", || std::io::copy(&mut src, &mut h))? {
                Ok(k) if k == n => acked = n,
                r => return fail("sink: copy", format!("io::copy of {} bytes: {:?}", n, r)),
            }
        }
    }
    if let Err(e) = c.call("flush", || h.flush())? {
        return fail("sink: flush", format!("flush failed: {}", e));
    }
    c.call("the twin", || plain(&mut t, rot, 0, acked))?;
    c.bytes += 2 * acked;
    c.sig(&[acked >> 31, acked % 64, how]);
    same(c, "huge write", &mut h, &mut t)
}

#[cfg(feature = "std")]
pub fn c05far(c: &mut Ctx) -> R {
    if c.chance(1, 2) {
        let p = gen_params(c, true);
        written::<b2::State>(c, &p)
    } else {
        let p = gen_sp_params(c);
        written::<blake2sp::State>(c, &p)
    }
}

// C06: checkpoints of old hashers.

pub fn c06far(c: &mut Ctx) -> R {
    let p = gen_params(c, true);
    let rot = c.pick(1 << 19) as usize;
    begin(c, &p, "blake2s", rot);
    let (mut h, mut t) = (open(c, &p)?, open(c, &p)?);
    let leg = first_leg(c) + if c.chance(1, 3) { 8192 } else { 0 };
    c.call("the long leg", || {
        plain(&mut h, rot, 0, leg);
        plain(&mut t, rot, 0, leg);
    })?;
    let mut pos = leg;
    let mut saved: Option<(b2::State, u64)> = None;
    let goal = c.goal(20, 60);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        match c.weighted(&[4, 2, 2, 1]) {
            0 => {
                let n = step_len(c, pos);
                ev!(c, "update({}) at {}", n, pos);
                let d = pattern().at(rot, pos, n);
                c.call("State::update", || {
                    h.update(d);
                    t.update(d);
                })?;
                pos += n as u64;
            }
            1 => {
                ev!(c, "checkpoint at {}", pos);
                let mut other = open(c, &PSpec::default())?;
                let k = c.call("State::clone", || {
                    if pos & 1 == 0 {
                        h.clone()
                    } else {
                        other.clone_from(&h);
                        other.clone()
                    }
                })?;
                saved = Some((k, pos));
            }
            2 => {
                if let Some((s, at)) = &saved {
                    ev!(c, "crash at {}, restored from {}", pos, at);
                    c.fault("crash, restart from a checkpoint beyond 4 GiB");
                    h = c.call("State::clone", || s.clone())?;
                    let (at, n) = (*at, pos - *at);
                    c.call("catching up", || plain(&mut h, rot, at, n))?;
                }
            }
            _ => {
                ev!(c, "a clone goes its own way at {}", pos);
                c.call("a stray clone", || {
                    let mut k = h.clone();
                    k.update(&[1; 300]).set_last_node(true);
                    k.finalize();
                })?;
            }
        }
        c.sig(&[pos >> 32, pos % 64, saved.is_some() as u64]);
    }
    c.bytes += 2 * pos;
    same(c, "clone beyond 4 GiB", &mut h, &mut t)
}

// C07: old hashers in batches.

struct Batch {
    s: Vec<b2::State>,
    p: Vec<PSpec>,
    rot: Vec<usize>,
    pos: Vec<u64>,
}

/// Eight hashers fed about `goal` bytes each in batches, some further than others.
fn aged(c: &mut Ctx, goal: u64) -> R<Batch> {
    let p: Vec<PSpec> = (0..8).map(|_| gen_params(c, true)).collect();
    let rot: Vec<usize> = (0..8).map(|_| c.pick(1 << 19) as usize).collect();
    begin(c, &p[0], "eight hashers, the first", rot[0]);
    let mut s = vec![];
    for p in &p {
        s.push(open(c, p)?);
    }
    let head: Vec<u64> = (0..8).map(|_| c.pick(3000)).collect();
    let seed = c.pick(1 << 30);
    let mut pos = vec![0; 8];
    c.call("update8", || {
        let mut rng = Rng::new(seed);
        for i in 0..8 {
            plain(&mut s[i], rot[i], 0, head[i]);
            pos[i] = head[i];
        }
        while pos[0] + 4000 < goal {
            let n = ((1 << 19) + rng.below(1 << 20)).min(goal - 4000 - pos[0]).max(1);
            let shift = rng.below(8) as usize;
            let order: Vec<usize> = (0..8).map(|i| (i + shift) % 8).collect();
            let inputs: Vec<&[u8]> = order.iter().map(|&i| pattern().at(rot[i], pos[i], n as usize)).collect();
            update8(&mut s, &order, &inputs);
            for p in &mut pos {
                *p += n;
            }
        }
    })?;
    c.bytes += pos.iter().sum::<u64>();
    ev!(c, "fed in batches up to {:?}", pos);
    Ok(Batch { s, p, rot, pos })
}

fn batch(c: &mut Ctx, b: &mut Batch) -> R {
    let order = c.distinct(8, 8);
    let lens: Vec<usize> = order.iter().map(|&i| step_len(c, b.pos[i])).collect();
    ev!(c, "update8 lanes {:?} lengths {:?}", order, lens);
    let inputs: Vec<&[u8]> = (0..8).map(|k| pattern().at(b.rot[order[k]], b.pos[order[k]], lens[k])).collect();
    c.call("update8", || update8(&mut b.s, &order, &inputs))?;
    for k in 0..8 {
        b.pos[order[k]] += lens[k] as u64;
    }
    Ok(())
}

pub fn c07far(c: &mut Ctx) -> R {
    let leg = first_leg(c);
    let mut b = aged(c, leg)?;
    let goal = c.goal(12, 30);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        match c.weighted(&[5, 1, 1]) {
            0 => batch(c, &mut b)?,
            1 => {
                let i = c.pick(8) as usize;
                let n = step_len(c, b.pos[i]);
                ev!(c, "lane {}: update({})", i, n);
                let d = pattern().at(b.rot[i], b.pos[i], n);
                let s = &mut b.s[i];
                c.call("State::update", || {
                    s.update(d);
                })?;
                b.pos[i] += n as u64;
            }
            _ => {
                ev!(c, "finalize8");
                let order = c.distinct(8, 8);
                c.call("finalize8", || finalize8(&mut b.s, &order))?;
            }
        }
        c.sig(&[b.pos[0] >> 32, b.pos[0] % 64, b.pos.iter().filter(|&&p| p >= GIB4).count() as u64]);
    }
    c.fault("lanes on both sides of 4 GiB");
    let h = c.call("finalize8", || finalize8(&mut b.s, &[0, 1, 2, 3, 4, 5, 6, 7]))?;
    // Twins for two of the lanes, fed alone.
    for i in c.distinct(2, 8) {
        let mut t = b.p[i].real().to_state();
        c.call("the twin", || plain(&mut t, b.rot[i], 0, b.pos[i]))?;
        let want = c.call("finalize of the twin", || t.finalize())?;
        ev!(c, "lane {}: {} bytes, digest {}", i, b.pos[i], h[i].to_hex());
        if h[i].as_bytes() != want.as_bytes() {
            return fail("batch beyond 4 GiB", format!("lane {}: digest {}, alone {}", i, h[i].to_hex(), want.to_hex()));
        }
        let (got, want) = (b.s[i].count(), t.count());
        if got != want {
            return fail("batch beyond 4 GiB", format!("lane {}: count {}, alone {}", i, got, want));
        }
    }
    Ok(())
}

// C08: huge jobs.

pub fn c08far(c: &mut Ctx) -> R {
    let e = endless();
    let op = c.weighted(&[1, 1, 2]);
    let n = if op == 0 { 4 } else { 8 };
    let shared = gen_params(c, true);
    let keys = op != 2;
    let ps: Vec<PSpec> = (0..n).map(|_| if op == 2 { gen_params(c, keys) } else { shared.clone() }).collect();
    begin(c, &ps[0], "one-shot jobs, the first", 0);
    let rot: Vec<usize> = (0..n).map(|_| c.pick(1 << 19) as usize).collect();
    let base = GIB4 + 64 * c.pick(64) - 64 * 32;
    let lens: Vec<u64> = (0..n).map(|_| if op == 2 { base + c.pick(3) * c.pick(1 << 13) } else { base }).collect();
    ev!(c, "{} of {:?} bytes", ["hash4_exact", "hash8_exact", "hash8"][op], lens);
    let inputs: Vec<&[u8]> = (0..n).map(|i| &e[rot[i]..rot[i] + lens[i] as usize]).collect();
    let real: Vec<b2::Params> = ps.iter().map(|p| p.real()).collect();
    let refs: Vec<&b2::Params> = real.iter().collect();
    let h: Vec<b2::Hash> = match op {
        0 => c.call("hash4_exact", || hash4_exact(refs[0], &inputs))?.to_vec(),
        1 => c.call("hash8_exact", || hash8_exact(refs[0], &inputs))?.to_vec(),
        _ => c.call("hash8", || hash8(&refs, &inputs))?.to_vec(),
    };
    c.bytes += lens.iter().sum::<u64>();
    for i in c.distinct(2, n) {
        let mut t = ps[i].real().to_state();
        c.call("the twin", || plain(&mut t, rot[i], 0, lens[i]))?;
        let want = c.call("finalize of the twin", || t.finalize())?;
        c.observe(h[i].as_bytes());
        if h[i].as_bytes() != want.as_bytes() {
            return fail("job beyond 4 GiB", format!("position {}: digest {}, alone {}", i, h[i].to_hex(), want.to_hex()));
        }
    }
    c.sig(&[op as u64, lens[0] >> 32, lens[0] % 4096]);
    Ok(())
}
