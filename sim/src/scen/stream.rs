//! C01, C02: a digest depends on the bytes, never on how they were delivered. Several sessions are
//! interleaved; each receives its stream in pieces the scheduler chooses, with digests demanded at
//! arbitrary instants, compared with the reference model at that instant.

use super::common::*;
use crate::ctx::{Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params, PSpec};
use blake2s_simd as b2;

const HIST: usize = 1 << 17;

/// Now and then a session meets a really long piece.
fn piece_len(c: &mut Ctx, total: u64, big: u64, huge: bool) -> usize {
    if huge && c.chance(1, 6) {
        c.probe("huge piece (>1 MiB)");
        let k = [20, 22, 24][c.weighted(&[4, 2, 1])];
        return (1 << 20) + c.pick(1 << k) as usize;
    }
    gen_len(c, total, big)
}

pub fn c01(c: &mut Ctx) -> R {
    let n = 1 + c.weighted(&[5, 2, 1]);
    let huge = c.chance(1, 1500);
    let big = [0, 1, 4][c.weighted(&[4, 4, 1])];
    let mut ss = Vec::new();
    for i in 0..n {
        let p = gen_params(c, true);
        ev!(c, "session {}: open {:?}", i, p);
        ss.push((One::new(c, p)?, Some(Vec::<u8>::new())));
    }
    let goal = c.goal(10, 40);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = if n > 1 { c.pick(n as u64) as usize } else { 0 };
        let (h, hist) = &mut ss[i];
        let pend = h.m.pending();
        let op = c.weighted(&[10, 5, 2, 2, 1, 1, 1]);
        let flags = h.m.last_node as u64 | (!h.p.key.is_empty() as u64) << 1;
        match op {
            0 => {
                let len = piece_len(c, h.m.len, big, huge);
                let d = data(c, len);
                ev!(c, "session {}: update({} bytes) at offset {}", i, len, h.m.len);
                c.sig(&[0, pend as u64, size_class(len), flags]);
                h.update(c, &d)?;
                remember(hist, &d);
            }
            1 => {
                ev!(c, "session {}: digest at {}", i, h.m.len);
                c.sig(&[1, pend as u64, h.m.len.min(65), flags, h.m.out as u64]);
                h.check(c, "State::finalize")?;
            }
            2 => {
                // A burst of equal small pieces.
                let size = c.pick(130) as usize;
                let times = match c.weighted(&[5, 2, 1]) {
                    0 => 2 + c.pick(20),
                    1 => 250 + c.pick(20),
                    _ => c.pick(1000),
                } as usize;
                let d = data(c, size * times);
                ev!(c, "session {}: {} updates of {} bytes", i, times, size);
                c.sig(&[2, pend as u64, size as u64, flags]);
                for j in 0..times {
                    h.update(c, &d[j * size..(j + 1) * size])?;
                }
                remember(hist, &d);
            }
            3 => {
                let on = c.chance(1, 2);
                ev!(c, "session {}: set_last_node({})", i, on);
                c.fault("late last-node decision");
                c.sig(&[3, pend as u64, on as u64, flags]);
                let s = &mut h.s;
                c.call("State::set_last_node", || {
                    s.set_last_node(on);
                })?;
                h.m.last_node = on;
            }
            4 => {
                // Chained calls in one expression.
                let (a, b) = (gen_len(c, h.m.len, 0), gen_len(c, h.m.len, 0));
                let d = data(c, a + b);
                let on = c.chance(1, 2);
                ev!(c, "session {}: update({}).set_last_node({}).update({}).finalize()", i, a, on, b);
                let s = &mut h.s;
                let got = c.call("chained update", || {
                    s.update(&d[..a]).set_last_node(on).update(&d[a..]).finalize()
                })?;
                h.m.update(&d);
                h.m.last_node = on;
                remember(hist, &d);
                c.check_digest("chained update", got.as_bytes(), &h.m.digest())?;
            }
            5 => {
                // The same bytes again, delivered differently, to a new hasher.
                if let Some(hist) = hist.as_ref() {
                    c.fault("redelivery with other boundaries");
                    let mut p2 = h.p.clone();
                    p2.last_node = h.m.last_node;
                    let mut o = One::new(c, p2)?;
                    let mut at = 0;
                    let mut pieces = 0;
                    while at < hist.len() {
                        let left = hist.len() - at;
                        let len = if pieces >= 20 { left } else { gen_len(c, at as u64, 1).min(left) };
                        o.update(c, &hist[at..at + len])?;
                        at += len;
                        pieces += 1;
                    }
                    ev!(c, "session {}: {} bytes redelivered in {} pieces", i, hist.len(), pieces);
                    o.check(c, "redelivery")?;
                }
            }
            _ => {
                // The one-call functions on the same bytes.
                if let Some(hist) = hist.as_ref() {
                    ev!(c, "session {}: one-call digests of its {} bytes", i, hist.len());
                    let got = c.call("blake2s", || b2::blake2s(hist))?;
                    c.check_digest("blake2s()", got.as_bytes(), &crate::model::digest(&PSpec::default(), hist))?;
                    let real = h.p.real();
                    let mut p2 = h.p.clone();
                    p2.last_node = h.p.last_node;
                    let got = c.call("one expression", || real.to_state().update(hist).finalize())?;
                    c.check_digest("to_state().update().finalize()", got.as_bytes(), &crate::model::digest(&p2, hist))?;
                }
            }
        }
    }
    for (i, (h, _)) in ss.iter_mut().enumerate() {
        ev!(c, "session {}: final digest at {}", i, h.m.len);
        h.check(c, "State::finalize")?;
    }
    Ok(())
}

fn remember(hist: &mut Option<Vec<u8>>, d: &[u8]) {
    let keep = match hist {
        Some(v) if v.len() + d.len() <= HIST => {
            v.extend_from_slice(d);
            true
        }
        _ => false,
    };
    if !keep {
        *hist = None;
    }
}

pub fn c02(c: &mut Ctx) -> R {
    let n = 1 + c.weighted(&[5, 2, 1]);
    let huge = c.chance(1, 1500);
    let big = [0, 1, 4][c.weighted(&[4, 4, 1])];
    let mut ss = Vec::new();
    for i in 0..n {
        let p = gen_sp_params(c);
        ev!(c, "session {}: open hash_length {} key {}", i, p.hash_length, p.key.len());
        ss.push((Sp::new(c, p)?, Some(Vec::<u8>::new())));
    }
    let goal = c.goal(10, 40);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = if n > 1 { c.pick(n as u64) as usize } else { 0 };
        let (h, hist) = &mut ss[i];
        let flags = !h.p.key.is_empty() as u64;
        let phase = (h.m.len % 1024) / 8;
        match c.weighted(&[12, 5, 2, 1, 1, 1]) {
            0 => {
                let len = piece_len(c, h.m.len, big, huge);
                let d = data(c, len);
                ev!(c, "session {}: update({} bytes) at offset {}", i, len, h.m.len);
                c.sig(&[0, phase, size_class(len), flags]);
                h.update(c, &d)?;
                remember(hist, &d);
            }
            1 => {
                ev!(c, "session {}: digest at {}", i, h.m.len);
                c.sig(&[1, h.m.len.min(1100), phase, flags]);
                h.check(c, "blake2sp finalize")?;
            }
            2 => {
                let size = c.pick(130) as usize;
                let times = match c.weighted(&[5, 2, 1]) {
                    0 => 2 + c.pick(20),
                    1 => 250 + c.pick(20),
                    _ => c.pick(1000),
                } as usize;
                let d = data(c, size * times);
                ev!(c, "session {}: {} updates of {} bytes", i, times, size);
                c.sig(&[2, phase, size as u64, flags]);
                for j in 0..times {
                    h.update(c, &d[j * size..(j + 1) * size])?;
                }
                remember(hist, &d);
            }
            3 => {
                let (a, b) = (gen_len(c, h.m.len, 0), gen_len(c, h.m.len, 0));
                let d = data(c, a + b);
                ev!(c, "session {}: update({}).update({}).finalize()", i, a, b);
                let s = &mut h.s;
                let got = c.call("chained update", || s.update(&d[..a]).update(&d[a..]).finalize())?;
                h.m.update(&d);
                remember(hist, &d);
                c.check_digest("chained update", got.as_bytes(), &h.m.digest())?;
            }
            4 => {
                if let Some(hist) = hist.as_ref() {
                    c.fault("redelivery with other boundaries");
                    let mut o = Sp::new(c, h.p.clone())?;
                    let mut at = 0;
                    let mut pieces = 0;
                    while at < hist.len() {
                        let left = hist.len() - at;
                        let len = if pieces >= 20 { left } else { gen_len(c, at as u64, 1).min(left) };
                        o.update(c, &hist[at..at + len])?;
                        at += len;
                        pieces += 1;
                    }
                    ev!(c, "session {}: {} bytes redelivered in {} pieces", i, hist.len(), pieces);
                    o.check(c, "redelivery")?;
                }
            }
            _ => {
                if let Some(hist) = hist.as_ref() {
                    ev!(c, "session {}: one-call digest of its {} bytes", i, hist.len());
                    let got = c.call("blake2sp", || b2::blake2sp::blake2sp(hist))?;
                    let mut m = crate::model::ModelSp::new(32, &[]);
                    m.update(hist);
                    c.check_digest("blake2sp()", got.as_bytes(), &m.digest())?;
                }
            }
        }
    }
    for (i, (h, _)) in ss.iter_mut().enumerate() {
        ev!(c, "session {}: final digest at {}", i, h.m.len);
        h.check(c, "blake2sp finalize")?;
    }
    Ok(())
}
