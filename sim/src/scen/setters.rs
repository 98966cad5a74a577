//! C16: configuration histories. A parameter set is configured in any order, with repetitions,
//! refusals, clones, and hashers made in between; every hasher must be the one its set described at
//! the moment it was made.

use super::common::*;
use crate::ctx::{Ctx, R};
use crate::model::{Model, ModelSp};
use crate::params::{edge_u32, edge_u48, edge_u8 as byte, gen_bytes_exact, gen_len, PSpec};
use blake2s_simd as b2;

fn bytes_up_to(c: &mut Ctx, max: u64) -> Vec<u8> {
    let n = match c.weighted(&[3, 2, 1, 1]) {
        0 => c.pick(max + 1),
        1 => max,
        2 => 0,
        _ => 1,
    };
    gen_bytes_exact(c, n as usize)
}

pub fn c16(c: &mut Ctx) -> R {
    if c.chance(1, 4) {
        return sp(c);
    }
    let mut spec = PSpec::default();
    let mut p = if c.chance(1, 2) { c.call("Params::default", b2::Params::default)? } else { c.call("Params::new", b2::Params::new)? };
    let mut snaps: Vec<(b2::State, Model)> = Vec::new();
    let goal = c.goal(14, 50);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let op = c.weighted(&[2, 4, 3, 3, 2, 2, 2, 2, 2, 2, 2, 3, 1, 4, 2]);
        c.sig(&[op as u64, spec.key.len() as u64, spec.hash_length as u64, spec.salt.len() as u64, snaps.len() as u64]);
        match op {
            0 => {
                spec.hash_length = 1 + c.pick(32) as usize;
                let n = spec.hash_length;
                c.call("Params::hash_length", || drop(p.hash_length(n)))?;
            }
            1 => {
                spec.key = bytes_up_to(c, 32);
                let v = &spec.key;
                c.call("Params::key", || drop(p.key(v)))?;
            }
            2 => {
                spec.salt = bytes_up_to(c, 8);
                let v = &spec.salt;
                c.call("Params::salt", || drop(p.salt(v)))?;
            }
            3 => {
                spec.personal = bytes_up_to(c, 8);
                let v = &spec.personal;
                c.call("Params::personal", || drop(p.personal(v)))?;
            }
            4 => {
                spec.fanout = byte(c, 0);
                let n = spec.fanout;
                c.call("Params::fanout", || drop(p.fanout(n)))?;
            }
            5 => {
                spec.max_depth = byte(c, 1);
                let n = spec.max_depth;
                c.call("Params::max_depth", || drop(p.max_depth(n)))?;
            }
            6 => {
                spec.max_leaf_length = edge_u32(c);
                let n = spec.max_leaf_length;
                c.call("Params::max_leaf_length", || drop(p.max_leaf_length(n)))?;
            }
            7 => {
                spec.node_offset = edge_u48(c);
                let n = spec.node_offset;
                c.call("Params::node_offset", || drop(p.node_offset(n)))?;
            }
            8 => {
                spec.node_depth = byte(c, 0);
                let n = spec.node_depth;
                c.call("Params::node_depth", || drop(p.node_depth(n)))?;
            }
            9 => {
                spec.inner_hash_length = if c.chance(1, 4) { 32 * c.pick(2) as usize } else { c.pick(33) as usize };
                let n = spec.inner_hash_length;
                c.call("Params::inner_hash_length", || drop(p.inner_hash_length(n)))?;
            }
            10 => {
                spec.last_node = c.chance(1, 2);
                let n = spec.last_node;
                c.call("Params::last_node", || drop(p.last_node(n)))?;
            }
            11 => {
                // A value outside the limits, survived. If it is accepted, that is C11's business,
                // and this run stops being about anything.
                let which = c.pick(7);
                let big = vec![0x5au8; 33 + c.pick(8) as usize];
                c.fault("refused value");
                let r = c.try_call(|| match which {
                    0 => drop(p.hash_length(0)),
                    1 => drop(p.hash_length(33)),
                    2 => drop(p.key(&big)),
                    3 => drop(p.salt(&big[..9])),
                    4 => drop(p.personal(&big[..9])),
                    5 => drop(p.node_offset(1 << 48)),
                    _ => drop(p.inner_hash_length(33)),
                });
                if r.is_ok() {
                    return Ok(());
                }
            }
            12 => {
                c.fault("set replaced by its clone");
                p = c.call("Params::clone", || p.clone())?;
            }
            13 => {
                if snaps.len() < 4 {
                    let s = c.call("Params::to_state", || p.to_state())?;
                    snaps.push((s, Model::new(&spec)));
                }
            }
            _ => {
                if !snaps.is_empty() {
                    let i = c.pick(snaps.len() as u64) as usize;
                    let n = gen_len(c, snaps[i].1.len, 0).min(400);
                    let d = data(c, n);
                    let (s, m) = &mut snaps[i];
                    c.call("State::update", || drop(s.update(&d)))?;
                    m.update(&d);
                    if c.chance(1, 2) {
                        let on = c.chance(1, 2);
                        c.call("State::set_last_node", || drop(s.set_last_node(on)))?;
                        m.last_node = on;
                    }
                    let got = c.call("State::finalize", || s.finalize())?;
                    c.check_digest("earlier hasher", got.as_bytes(), &m.digest())?;
                }
            }
        }
        ev!(c, "op {}: set is now {:?}, {} hashers made", op, spec, snaps.len());
    }
    for (s, m) in &mut snaps {
        let got = c.call("State::finalize", || s.finalize())?;
        c.check_digest("earlier hasher", got.as_bytes(), &m.digest())?;
    }
    let d = bytes(9, 70);
    let mut s = c.call("Params::to_state", || p.to_state())?;
    let mut m = Model::new(&spec);
    let got = c.call("State::finalize", || s.finalize())?;
    c.check_digest("final hasher", got.as_bytes(), &m.digest())?;
    c.call("State::update", || drop(s.update(&d)))?;
    m.update(&d);
    let got = c.call("State::finalize", || s.finalize())?;
    c.check_digest("final hasher", got.as_bytes(), &m.digest())?;
    // The batch calls read the set as well.
    let block = bytes(11, 128);
    let refs = [&block[..]; 8];
    if let Ok(hs) = c.try_call(|| hash4_exact(&p, &refs)) {
        let want = crate::model::digest(&spec, &block);
        for h in &hs {
            c.check_digest("hash4_exact", h.as_bytes(), &want)?;
        }
    }
    if let Ok(hs) = c.try_call(|| hash8_exact(&p, &refs)) {
        let want = crate::model::digest(&spec, &block);
        for h in &hs {
            c.check_digest("hash8_exact", h.as_bytes(), &want)?;
        }
    }
    if spec.key.is_empty() {
        let hs = c.call("hash8", || hash8(&[&p; 8], &refs))?;
        let want = crate::model::digest(&spec, &block);
        for h in &hs {
            c.check_digest("hash8", h.as_bytes(), &want)?;
        }
    }
    Ok(())
}

fn sp(c: &mut Ctx) -> R {
    use b2::blake2sp::{Params, State};
    let mut spec = PSpec::default();
    let mut p = if c.chance(1, 2) { Params::default() } else { Params::new() };
    let mut snaps: Vec<(State, ModelSp)> = Vec::new();
    let goal = c.goal(8, 25);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        match c.weighted(&[3, 4, 2, 1, 3, 2]) {
            0 => {
                spec.hash_length = 1 + c.pick(32) as usize;
                let n = spec.hash_length;
                c.call("blake2sp::Params::hash_length", || drop(p.hash_length(n)))?;
            }
            1 => {
                spec.key = bytes_up_to(c, 32);
                let v = &spec.key;
                c.call("blake2sp::Params::key", || drop(p.key(v)))?;
            }
            2 => {
                let which = c.pick(3);
                let big = vec![0x5au8; 33 + c.pick(8) as usize];
                c.fault("refused value");
                let r = c.try_call(|| match which {
                    0 => drop(p.hash_length(0)),
                    1 => drop(p.hash_length(33)),
                    _ => drop(p.key(&big)),
                });
                if r.is_ok() {
                    return Ok(());
                }
            }
            3 => {
                c.fault("set replaced by its clone");
                p = c.call("blake2sp::Params::clone", || p.clone())?;
            }
            4 => {
                if snaps.len() < 4 {
                    let s = c.call("blake2sp::Params::to_state", || p.to_state())?;
                    snaps.push((s, ModelSp::new(spec.hash_length, &spec.key)));
                }
            }
            _ => {
                if !snaps.is_empty() {
                    let i = c.pick(snaps.len() as u64) as usize;
                    let n = c.pick(1500) as usize;
                    let d = data(c, n);
                    let (s, m) = &mut snaps[i];
                    c.call("blake2sp::State::update", || drop(s.update(&d)))?;
                    m.update(&d);
                    let got = c.call("blake2sp::State::finalize", || s.finalize())?;
                    c.check_digest("earlier blake2sp hasher", got.as_bytes(), &m.digest())?;
                }
            }
        }
        ev!(c, "blake2sp set is now hash_length {} key {:?}, {} hashers made", spec.hash_length, spec.key, snaps.len());
    }
    for (s, m) in &mut snaps {
        let got = c.call("blake2sp::State::finalize", || s.finalize())?;
        c.check_digest("earlier blake2sp hasher", got.as_bytes(), &m.digest())?;
    }
    let d = bytes(9, 70);
    let mut s = c.call("blake2sp::Params::to_state", || p.to_state())?;
    let mut m = ModelSp::new(spec.hash_length, &spec.key);
    c.call("blake2sp::State::update", || drop(s.update(&d)))?;
    m.update(&d);
    let got = c.call("blake2sp::State::finalize", || s.finalize())?;
    c.check_digest("final blake2sp hasher", got.as_bytes(), &m.digest())
}
