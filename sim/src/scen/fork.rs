//! C06: clones as checkpoints. A pool of hashers forks, crashes and is restored from clones at
//! arbitrary instants. Every hasher's whole history is kept; the oracle replays it on a hasher that
//! was never cloned. Parameter sets fork in the same way.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_bytes_exact, gen_len, gen_params, gen_sp_params, PSpec};
use b2::blake2sp;
use blake2s_simd as b2;
use std::rc::Rc;

#[derive(Clone)]
enum Op {
    Data(Rc<Vec<u8>>),
    Last(bool),
    Digest,
}

struct Node {
    s: Box<b2::State>,
    p: PSpec,
    past: Vec<Op>,
    len: u64,
}

/// The history replayed on a hasher that was never cloned.
fn alone(p: &PSpec, past: &[Op]) -> b2::State {
    let mut s = p.real().to_state();
    for op in past {
        match op {
            Op::Data(d) => {
                s.update(d);
            }
            Op::Last(b) => {
                s.set_last_node(*b);
            }
            Op::Digest => {
                s.finalize();
            }
        }
    }
    s
}

fn verify(c: &mut Ctx, n: &mut Node, who: &str) -> R {
    let (p, past) = (&n.p, &n.past);
    let mut t = c.call("reference", || alone(p, past))?;
    let (x, y) = (c.call("State::count", || n.s.count())?, c.call("reference", || t.count())?);
    if x != y {
        return fail("clone: count", format!("{}: count {} but {} without cloning", who, x, y));
    }
    let (x, y) = (c.call("State::fmt", || format!("{:?}", n.s))?, c.call("reference", || format!("{:?}", t))?);
    if x != y {
        return fail("clone: debug text", format!("{}: {} but {} without cloning", who, x, y));
    }
    let (x, y) = (c.call("State::finalize", || n.s.finalize())?, c.call("reference", || t.finalize())?);
    c.observe(x.as_bytes());
    if x.as_bytes() != y.as_bytes() {
        return fail(
            "clone: digest",
            format!("{}: digest {} but {} without cloning", who, hex(x.as_bytes()), hex(y.as_bytes())),
        );
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) -> R {
    if c.chance(1, 5) {
        return params_fork(c);
    }
    let mut pool: Vec<Node> = Vec::new();
    let n = 1 + c.weighted(&[3, 1]);
    for i in 0..n {
        let p = gen_params(c, true);
        ev!(c, "hasher {}: {:?}", i, p);
        pool.push(Node { s: Box::new(open(c, &p)?), p, past: vec![], len: 0 });
    }
    let goal = c.goal(12, 50);
    let mut k = 0;
    let mut retired: Vec<Node> = Vec::new();
    while c.more(k, goal) {
        k += 1;
        let i = c.pick(pool.len() as u64) as usize;
        let op = c.weighted(&[8, 5, 3, 2, 1, 2, 1, 1]);
        c.sig(&[op as u64, pool[i].len % 64, pool[i].len.min(200) / 64, pool.len() as u64, !pool[i].p.key.is_empty() as u64]);
        match op {
            0 => {
                let len = gen_len(c, pool[i].len, 1);
                let d = Rc::new(data(c, len));
                ev!(c, "hasher {}: update({}) at {}", i, len, pool[i].len);
                let h = &mut pool[i];
                c.call("State::update", || {
                    h.s.update(&d);
                })?;
                h.past.push(Op::Data(d));
                h.len += len as u64;
                c.bytes += len as u64;
            }
            1 => {
                if pool.len() < 6 {
                    ev!(c, "hasher {} forks into {} at {}", i, pool.len(), pool[i].len);
                    c.fault("fork (checkpoint)");
                    let h = &pool[i];
                    let s = c.call("State::clone", || Box::new((*h.s).clone()))?;
                    let node = Node { s, p: h.p.clone(), past: h.past.clone(), len: h.len };
                    pool.push(node);
                }
            }
            2 => {
                // Crash of i, restored from j.
                let j = c.pick(pool.len() as u64) as usize;
                if i != j {
                    let into = c.chance(1, 2);
                    ev!(c, "hasher {} crashes, restored from {} ({})", i, j, if into { "clone_from" } else { "clone" });
                    c.fault("crash and restore from checkpoint");
                    let (a, b) = if i < j {
                        let (l, r) = pool.split_at_mut(j);
                        (&mut l[i], &r[0])
                    } else {
                        let (l, r) = pool.split_at_mut(i);
                        (&mut r[0], &l[j])
                    };
                    if into {
                        c.call("State::clone_from", || (*a.s).clone_from(&b.s))?;
                    } else {
                        a.s = c.call("State::clone", || Box::new((*b.s).clone()))?;
                    }
                    a.p = b.p.clone();
                    a.past = b.past.clone();
                    a.len = b.len;
                }
            }
            3 => {
                let on = c.chance(1, 2);
                ev!(c, "hasher {}: set_last_node({})", i, on);
                let h = &mut pool[i];
                c.call("State::set_last_node", || {
                    h.s.set_last_node(on);
                })?;
                h.past.push(Op::Last(on));
            }
            4 => {
                ev!(c, "hasher {}: digest", i);
                let h = &mut pool[i];
                c.call("State::finalize", || h.s.finalize())?;
                h.past.push(Op::Digest);
            }
            5 => {
                ev!(c, "hasher {}: verified at {}", i, pool[i].len);
                let who = format!("hasher {}", i);
                verify(c, &mut pool[i], &who)?;
                pool[i].past.push(Op::Digest);
            }
            6 => {
                if pool.len() > 1 {
                    ev!(c, "hasher {} is dropped", i);
                    c.fault("original or clone dropped");
                    let h = pool.remove(i);
                    if c.chance(1, 2) {
                        retired.push(h);
                    }
                }
            }
            _ => {
                // A clone of a clone of a clone, moved about.
                ev!(c, "hasher {}: replaced by its third-generation clone", i);
                let h = &mut pool[i];
                let s = &h.s;
                h.s = c.call("State::clone", || Box::new((**s).clone().clone().clone()))?;
            }
        }
    }
    let all = pool.len();
    for (i, h) in pool.iter_mut().chain(retired.iter_mut()).enumerate() {
        let who = format!("{} {}", if i < all { "hasher" } else { "retired hasher" }, i);
        verify(c, h, &who)?;
    }
    Ok(())
}

/// Parameter sets fork and diverge.
fn params_fork(c: &mut Ctx) -> R {
    if c.chance(1, 3) {
        return sp_params_fork(c);
    }
    let p = gen_params(c, true);
    ev!(c, "parameters {:?}", p);
    let mut pool: Vec<(b2::Params, PSpec)> = vec![(c.call("Params", || p.real())?, p)];
    let goal = c.goal(6, 20);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = c.pick(pool.len() as u64) as usize;
        match c.weighted(&[3, 2, 3, 1]) {
            0 if pool.len() < 5 => {
                ev!(c, "set {} cloned into {}", i, pool.len());
                c.fault("fork (parameters)");
                let (r, s) = (&pool[i].0, pool[i].1.clone());
                let r = c.call("Params::clone", || r.clone())?;
                pool.push((r, s));
            }
            1 => {
                let j = c.pick(pool.len() as u64) as usize;
                if i != j {
                    ev!(c, "set {} restored from {}", i, j);
                    let (r, s) = (pool[j].0.clone(), pool[j].1.clone());
                    let dst = &mut pool[i].0;
                    c.call("Params::clone_from", || dst.clone_from(&r))?;
                    pool[i].1 = s;
                }
            }
            2 => {
                let (r, s) = &mut pool[i];
                mutate(c, r, s)?;
                ev!(c, "set {} changed: {:?}", i, s);
            }
            _ => check_params(c, &pool[i].0, &pool[i].1, i)?,
        }
    }
    for i in 0..pool.len() {
        check_params(c, &pool[i].0, &pool[i].1, i)?;
    }
    Ok(())
}

fn mutate(c: &mut Ctx, r: &mut b2::Params, s: &mut PSpec) -> R {
    match c.pick(11) {
        0 => {
            s.hash_length = 1 + c.pick(32) as usize;
            c.call("hash_length", || drop(r.hash_length(s.hash_length)))
        }
        1 => {
            let n = c.pick(33) as usize;
            s.key = gen_bytes_exact(c, n);
            c.call("key", || drop(r.key(&s.key)))
        }
        2 => {
            let n = c.pick(9) as usize;
            s.salt = gen_bytes_exact(c, n);
            c.call("salt", || drop(r.salt(&s.salt)))
        }
        3 => {
            let n = c.pick(9) as usize;
            s.personal = gen_bytes_exact(c, n);
            c.call("personal", || drop(r.personal(&s.personal)))
        }
        4 => {
            s.fanout = c.pick(256) as u8;
            c.call("fanout", || drop(r.fanout(s.fanout)))
        }
        5 => {
            s.max_depth = 1 + c.pick(255) as u8;
            c.call("max_depth", || drop(r.max_depth(s.max_depth)))
        }
        6 => {
            s.max_leaf_length = c.pick(1 << 32) as u32;
            c.call("max_leaf_length", || drop(r.max_leaf_length(s.max_leaf_length)))
        }
        7 => {
            s.node_offset = c.pick(1 << 48);
            c.call("node_offset", || drop(r.node_offset(s.node_offset)))
        }
        8 => {
            s.node_depth = c.pick(256) as u8;
            c.call("node_depth", || drop(r.node_depth(s.node_depth)))
        }
        9 => {
            s.inner_hash_length = c.pick(33) as usize;
            c.call("inner_hash_length", || drop(r.inner_hash_length(s.inner_hash_length)))
        }
        _ => {
            s.last_node = c.chance(1, 2);
            c.call("last_node", || drop(r.last_node(s.last_node)))
        }
    }
}

fn check_params(c: &mut Ctx, r: &b2::Params, s: &PSpec, i: usize) -> R {
    let d = bytes(i as u64, 75);
    let got = c.call("to_state", || r.to_state().update(&d).finalize())?;
    let want = c.call("reference", || s.real().to_state().update(&d).finalize())?;
    c.observe(got.as_bytes());
    if got.as_bytes() != want.as_bytes() {
        return fail("clone: parameters", format!("set {} gives {}, built afresh {}", i, hex(got.as_bytes()), hex(want.as_bytes())));
    }
    Ok(())
}

fn sp_params_fork(c: &mut Ctx) -> R {
    let p = gen_sp_params(c);
    let mut pool: Vec<(blake2sp::Params, PSpec)> = vec![(c.call("blake2sp::Params", || p.real_sp())?, p)];
    let goal = c.goal(6, 20);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = c.pick(pool.len() as u64) as usize;
        match c.weighted(&[3, 2, 3]) {
            0 if pool.len() < 5 => {
                ev!(c, "blake2sp set {} cloned into {}", i, pool.len());
                c.fault("fork (parameters)");
                let (r, s) = (&pool[i].0, pool[i].1.clone());
                let r = c.call("blake2sp::Params::clone", || r.clone())?;
                pool.push((r, s));
            }
            1 => {
                let j = c.pick(pool.len() as u64) as usize;
                if i != j {
                    let (r, s) = (pool[j].0.clone(), pool[j].1.clone());
                    let dst = &mut pool[i].0;
                    c.call("blake2sp::Params::clone_from", || dst.clone_from(&r))?;
                    pool[i].1 = s;
                }
            }
            _ => {
                let (r, s) = &mut pool[i];
                if c.chance(1, 2) {
                    let n = c.pick(33) as usize;
                    s.key = gen_bytes_exact(c, n);
                    c.call("key", || drop(r.key(&s.key)))?;
                } else {
                    s.hash_length = 1 + c.pick(32) as usize;
                    c.call("hash_length", || drop(r.hash_length(s.hash_length)))?;
                }
                ev!(c, "blake2sp set {} changed", i);
            }
        }
    }
    for (i, (r, s)) in pool.iter().enumerate() {
        let d = bytes(i as u64, 1200);
        let got = c.call("to_state", || r.to_state().update(&d).finalize())?;
        let want = c.call("reference", || s.real_sp().to_state().update(&d).finalize())?;
        c.observe(got.as_bytes());
        let (x, y) = (format!("{:?}", r), format!("{:?}", s.real_sp()));
        if got.as_bytes() != want.as_bytes() || x != y {
            return fail("clone: blake2sp parameters", format!("set {} gives {} {}, built afresh {} {}", i, hex(got.as_bytes()), x, hex(want.as_bytes()), y));
        }
    }
    Ok(())
}
