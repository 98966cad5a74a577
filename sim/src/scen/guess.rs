//! C18: comparing digests takes time independent of where they differ. A simulated server checks
//! tags of a secret digest; a simulated attacker sends wrong tags of the right length that agree with
//! it here and there, and reads the clock: a simulated one, which counts the instructions of the one
//! comparison and nothing else. All wrong tags must take the same time, whatever happens in between.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::gen_params;
use crate::ticks::ticks;
use b2::Hash;
use blake2s_simd as b2;
use std::hint::black_box;

/// The digest with its shown bytes replaced where it is kept, if it is kept inside the value at all.
fn showing(h: &Hash, bytes: &[u8]) -> Option<Hash> {
    let mut h = *h;
    let base = &mut h as *mut Hash as usize;
    if h.as_bytes().len() != bytes.len() {
        return None;
    }
    let at = (h.as_bytes().as_ptr() as usize).wrapping_sub(base);
    if at.checked_add(bytes.len())? > std::mem::size_of::<Hash>() {
        return None;
    }
    unsafe {
        let p = (&mut h as *mut Hash as *mut u8).add(at);
        for (i, b) in bytes.iter().enumerate() {
            std::ptr::write_volatile(p.add(i), *b);
        }
    }
    if h.as_bytes() == bytes {
        Some(h)
    } else {
        None
    }
}

/// A wrong tag: equal up to some byte, or different at a few, or everywhere.
fn wrong(c: &mut Ctx, secret: &[u8]) -> Vec<u8> {
    let n = secret.len();
    let mut g = secret.to_vec();
    let at = |c: &mut Ctx| match c.weighted(&[4, 1, 1]) {
        0 => c.pick(n as u64) as usize,
        1 => 0,
        _ => n - 1,
    };
    let i = at(c);
    match c.weighted(&[4, 3, 2, 2]) {
        0 => g[i] ^= 1 << c.pick(8),
        1 => {
            for b in &mut g[i..] {
                *b = b.wrapping_add(1 + c.pick(255) as u8);
            }
        }
        2 => {
            for b in &mut g[..=i] {
                *b = b.wrapping_add(1 + c.pick(255) as u8);
            }
        }
        _ => {
            for _ in 0..1 + c.pick(3) {
                let j = at(c);
                g[j] = c.pick(256) as u8;
            }
            if g == secret {
                g[i] ^= 0x80;
            }
        }
    }
    g
}

const OPS: [&str; 6] = ["Hash == Hash", "Hash != Hash", "Hash == [u8]", "Hash != [u8]", "Hash == Hash (tag first)", "PartialEq::eq by reference"];

struct Desk {
    secret: Box<Hash>,
    tag: Box<Hash>,
    bytes: Box<[u8; 64]>,
    at: usize,
    n: usize,
    answer: bool,
}

/// Always the same operands in the same places.
#[inline(never)]
fn one(op: usize, d: &mut Desk) {
    let (a, b): (&Hash, &Hash) = (black_box(&d.secret), black_box(&d.tag));
    let s: &[u8] = black_box(&d.bytes[d.at..d.at + d.n]);
    d.answer = match op {
        0 => *a == *b,
        1 => *a != *b,
        2 => *a == *s,
        3 => *a != *s,
        4 => *b == *a,
        _ => <Hash as PartialEq<Hash>>::eq(a, b),
    };
}

/// For the interpreter: little data.
pub fn c18small(c: &mut Ctx) -> R {
    c.small = true;
    c18(c)
}

pub fn c18(c: &mut Ctx) -> R {
    let mut p = gen_params(c, true);
    p.hash_length = match c.weighted(&[3, 2, 4]) {
        0 => 32,
        1 => 16,
        _ => 1 + c.pick(32) as usize,
    };
    let n = p.hash_length;
    let m = c.pick(if c.small { 80 } else { 300 }) as usize;
    let msg = data(c, m);
    let real = p.real();
    let secret = c.call("Params::hash", || real.to_state().update(&msg).finalize())?;
    let shown = secret.as_bytes().to_vec();
    if shown.len() != n {
        c.probe("the digest has another length than configured");
        return Ok(());
    }
    ev!(c, "secret tag of {} bytes", n);
    let mut d = Desk {
        secret: Box::new(secret),
        tag: Box::new(secret),
        bytes: Box::new([0; 64]),
        at: c.pick(17) as usize,
        n,
        answer: false,
    };
    // Per operation: the first wrong tag, and its time.
    let mut first: Vec<Option<(Vec<u8>, u64)>> = vec![None; OPS.len()];
    let goal = if c.small { c.goal(4, 8) } else { c.goal(5, 12) };
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let natural = c.chance(1, 5);
        let g;
        if natural {
            let other = data(c, 1 + m % 100);
            d.tag = {
                let h = c.call("Params::hash", || real.to_state().update(&other).finalize())?;
                let mut t = d.tag;
                *t = h;
                t
            };
            g = d.tag.as_bytes().to_vec();
            if g == shown || g.len() != n {
                continue;
            }
        } else {
            g = wrong(c, &shown);
            match showing(&d.secret, &g) {
                Some(h) => *d.tag = h,
                None => {
                    c.probe("digests are kept elsewhere: only hashed ones are compared");
                    *d.tag = real.to_state().update(&g).finalize();
                    if d.tag.as_bytes() == &shown[..] {
                        continue;
                    }
                }
            }
        }
        d.bytes[d.at..d.at + n].copy_from_slice(&g);
        let here = d.at..d.at + n;
        let prefix = shown.iter().zip(&g).take_while(|(a, b)| a == b).count();
        let ops: Vec<usize> = if c.small { vec![c.pick(4) as usize] } else { (0..OPS.len()).collect() };
        for op in ops {
            // What came before must not matter either.
            match c.weighted(&[6, 1, 1, 1]) {
                1 => {
                    c.fault("other comparison in between");
                    d.bytes[here.clone()].copy_from_slice(&shown);
                    let t = *d.tag;
                    *d.tag = *d.secret;
                    one(op, &mut d);
                    *d.tag = t;
                    d.bytes[here.clone()].copy_from_slice(&g);
                }
                2 => {
                    c.fault("hashing in between");
                    let x = data(c, 70);
                    drop(black_box(b2::blake2s(&x)));
                }
                3 => {
                    c.fault("same comparison in between");
                    one(op, &mut d);
                }
                _ => {}
            }
            one(op, &mut d);
            let t = c.call(OPS[op], || ticks(&mut || one(op, &mut d)))?;
            c.sig(&[op as u64, n as u64, prefix as u64]);
            let t = match t {
                Some(t) => t,
                None => {
                    c.probe("no single-stepping on this machine");
                    return Ok(());
                }
            };
            c.fault("comparison timed by the simulated clock");
            ev!(c, "{}: tag differs first at byte {}: {} ticks", OPS[op], prefix, t);
            match &first[op] {
                None => first[op] = Some((g.clone(), t)),
                Some((f, u)) => {
                    if *u != t {
                        // A clock that does not repeat itself proves nothing.
                        if ticks(&mut || one(op, &mut d)) != Some(t) {
                            c.probe("the same comparison takes different times");
                            continue;
                        }
                        let (fb, tag) = (f.clone(), *d.tag);
                        let back = showing(&d.secret, &fb);
                        d.bytes[here.clone()].copy_from_slice(&fb);
                        if let Some(h) = back {
                            *d.tag = h;
                        }
                        let v = ticks(&mut || one(op, &mut d));
                        *d.tag = tag;
                        d.bytes[here.clone()].copy_from_slice(&g);
                        if back.is_some() && v != Some(*u) {
                            c.probe("the same comparison takes different times");
                            continue;
                        }
                        let pf = shown.iter().zip(f).take_while(|(a, b)| a == b).count();
                        return fail(
                            &format!("time depends on the difference: {}", OPS[op]),
                            format!("digest {}: a tag that differs first at byte {} ({}) takes {} ticks, one that differs first at byte {} ({}) takes {}",
                                hex(&shown), pf, hex(f), u, prefix, hex(&g), t),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}
