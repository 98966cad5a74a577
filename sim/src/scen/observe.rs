//! C03: two twins receive the same input; one of them is observed (digests, counts, debug text,
//! clones, batched digests) at instants the scheduler chooses, the other never is. At the end both
//! must answer alike, and repeated queries must have repeated themselves.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params};
use b2::blake2sp;
use blake2s_simd as b2;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: &T, b: &T) -> R {
    if a != b {
        return fail(&format!("repeat: {}", what), format!("{} answered {:?}, then with no input in between {:?}", what, a, b));
    }
    Ok(())
}

fn fin(c: &mut Ctx, s: &mut b2::State) -> R<Vec<u8>> {
    Ok(c.call("State::finalize", || s.finalize())?.as_bytes().to_vec())
}
fn fin_sp(c: &mut Ctx, s: &mut blake2sp::State) -> R<Vec<u8>> {
    Ok(c.call("blake2sp::State::finalize", || s.finalize())?.as_bytes().to_vec())
}

pub fn c03(c: &mut Ctx) -> R {
    let pool = [1usize, 2, 8, 9][c.weighted(&[4, 2, 5, 1])];
    let nsp = [1usize, 0][c.weighted(&[1, 1])];
    let mut a = Vec::new();
    let mut b = Vec::new();
    let mut len = Vec::new();
    let mut seen = Vec::new();
    for i in 0..pool {
        let p = gen_params(c, true);
        ev!(c, "hasher {}: {:?}", i, p);
        a.push(open(c, &p)?);
        b.push(c.call("Params::to_state", || p.real().to_state())?);
        len.push(0u64);
        seen.push(false);
    }
    let (mut sa, mut sb, mut slen) = (Vec::new(), Vec::new(), 0u64);
    for _ in 0..nsp {
        let p = gen_sp_params(c);
        ev!(c, "blake2sp hasher: hash_length {} key {}", p.hash_length, p.key.len());
        sa.push(open_sp(c, &p)?);
        sb.push(c.call("blake2sp::Params::to_state", || p.real_sp().to_state())?);
    }
    let goal = c.goal(10, 40);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = c.pick(pool as u64) as usize;
        let batch = if pool >= 8 { 3 } else { 0 };
        let sp = 4 * nsp as u64;
        let op = c.weighted(&[8, 5, 1, 1, 1, batch, batch, 1, sp, sp, 2 * nsp as u64]);
        if op < 8 {
            c.sig(&[op as u64, len[i] % 64, len[i].min(130) / 64, pool as u64, seen[i] as u64]);
        } else {
            c.sig(&[op as u64, slen % 1024 / 8, slen.min(2100) / 512]);
        }
        match op {
            0 => {
                let n = gen_len(c, len[i], 1);
                let d = data(c, n);
                ev!(c, "both {}: update({})", i, n);
                for s in [&mut a[i], &mut b[i]].iter_mut() {
                    c.call("State::update", || {
                        s.update(&d);
                    })?;
                }
                len[i] += n as u64;
                c.bytes += n as u64;
            }
            1 => {
                let times = 1 + c.weighted(&[4, 3, 1]);
                ev!(c, "observe {}: {} digests at {}", i, times, len[i]);
                c.fault("digest taken mid-stream");
                let first = fin(c, &mut a[i])?;
                c.observe(&first);
                for _ in 1..times {
                    match c.pick(4) {
                        0 => {}
                        1 => {
                            c.call("State::count", || a[i].count())?;
                        }
                        2 => {
                            c.call("State::fmt", || format!("{:?}", a[i]))?;
                        }
                        _ => {
                            c.call("State::clone", || drop(a[i].clone()))?;
                        }
                    }
                    let again = fin(c, &mut a[i])?;
                    same("finalize", &hex(&first), &hex(&again))?;
                }
                seen[i] = true;
            }
            2 => {
                let x = c.call("State::count", || a[i].count())?;
                let y = c.call("State::count", || a[i].count())?;
                ev!(c, "observe {}: count {}", i, x);
                same("count", &x, &y)?;
            }
            3 => {
                let alt = c.chance(1, 2);
                let f = |s: &b2::State| if alt { format!("{:#?}", s) } else { format!("{:?}", s) };
                let x = c.call("State::fmt", || f(&a[i]))?;
                let y = c.call("State::fmt", || f(&a[i]))?;
                ev!(c, "observe {}: {}", i, x);
                same("debug text", &x, &y)?;
            }
            4 => {
                // A clone is taken, used and dropped.
                let n = c.pick(200) as usize;
                let d = data(c, n);
                ev!(c, "observe {}: clone, {} bytes into the clone, digest of the clone", i, n);
                let mut t = c.call("State::clone", || a[i].clone())?;
                c.call("State::update", || {
                    t.update(&d);
                })?;
                fin(c, &mut t)?;
            }
            5 => {
                let order = c.distinct(8, pool);
                let times = 1 + c.weighted(&[3, 2]);
                ev!(c, "observe lanes {:?}: {} batched digests", order, times);
                c.fault("batched digest taken mid-stream");
                let first = c.call("finalize8", || finalize8(&mut a, &order))?;
                let mut prev: Vec<String> = first.iter().map(|h| hex(h.as_bytes())).collect();
                for h in &first {
                    c.observe(h.as_bytes());
                }
                for _ in 1..times {
                    let again = c.call("finalize8", || finalize8(&mut a, &order))?;
                    let next: Vec<String> = again.iter().map(|h| hex(h.as_bytes())).collect();
                    same("finalize8", &prev, &next)?;
                    prev = next;
                }
                for &l in &order {
                    seen[l] = true;
                }
            }
            6 => {
                let order = c.distinct(8, pool);
                let shape = c.weighted(&[2, 1, 1]);
                let base = gen_len(c, len[order[0]], 0);
                let lens: Vec<usize> = (0..8)
                    .map(|l| match shape {
                        0 => base,
                        1 => gen_len(c, len[order[l]], 0),
                        _ => base + c.pick(3) as usize,
                    })
                    .collect();
                let d: Vec<Vec<u8>> = lens.iter().map(|&n| data(c, n)).collect();
                let refs: Vec<&[u8]> = d.iter().map(|v| &v[..]).collect();
                ev!(c, "both: update8 lanes {:?} lengths {:?}", order, lens);
                c.call("update8", || update8(&mut a, &order, &refs))?;
                c.call("update8", || update8(&mut b, &order, &refs))?;
                for l in 0..8 {
                    len[order[l]] += lens[l] as u64;
                    c.bytes += lens[l] as u64;
                }
            }
            7 => {
                let on = c.chance(1, 2);
                ev!(c, "both {}: set_last_node({})", i, on);
                for s in [&mut a[i], &mut b[i]].iter_mut() {
                    c.call("State::set_last_node", || {
                        s.set_last_node(on);
                    })?;
                }
            }
            8 => {
                let n = gen_len(c, slen, 1);
                let d = data(c, n);
                ev!(c, "both blake2sp: update({}) at {}", n, slen);
                for s in [&mut sa[0], &mut sb[0]].iter_mut() {
                    c.call("blake2sp::State::update", || {
                        s.update(&d);
                    })?;
                }
                slen += n as u64;
                c.bytes += n as u64;
            }
            9 => {
                let times = 1 + c.weighted(&[4, 3, 1]);
                ev!(c, "observe blake2sp: {} digests at {}", times, slen);
                c.fault("blake2sp digest taken mid-stream");
                let first = fin_sp(c, &mut sa[0])?;
                c.observe(&first);
                for _ in 1..times {
                    let again = fin_sp(c, &mut sa[0])?;
                    same("blake2sp finalize", &hex(&first), &hex(&again))?;
                }
            }
            _ => {
                let x = c.call("blake2sp::State::count", || sa[0].count())?;
                let y = c.call("blake2sp::State::count", || sa[0].count())?;
                same("blake2sp count", &x, &y)?;
                let x = c.call("blake2sp::State::fmt", || format!("{:?}", sa[0]))?;
                let y = c.call("blake2sp::State::fmt", || format!("{:?}", sa[0]))?;
                ev!(c, "observe blake2sp: {}", x);
                same("blake2sp debug text", &x, &y)?;
            }
        }
    }
    for i in 0..pool {
        let (x, y) = (c.call("State::count", || a[i].count())?, c.call("State::count", || b[i].count())?);
        if x != y {
            return fail("twin: count", format!("hasher {}: observed one counts {}, unobserved one {}", i, x, y));
        }
        let (x, y) = (fin(c, &mut a[i])?, fin(c, &mut b[i])?);
        if x != y {
            return fail("twin: digest", format!("hasher {}: observed one gives {}, unobserved one {}", i, hex(&x), hex(&y)));
        }
        c.observe(&x);
    }
    for i in 0..nsp {
        let (x, y) =
            (c.call("blake2sp::State::count", || sa[i].count())?, c.call("blake2sp::State::count", || sb[i].count())?);
        if x != y {
            return fail("twin: blake2sp count", format!("observed one counts {}, unobserved one {}", x, y));
        }
        let (x, y) = (fin_sp(c, &mut sa[i])?, fin_sp(c, &mut sb[i])?);
        if x != y {
            return fail("twin: blake2sp digest", format!("observed one gives {}, unobserved one {}", hex(&x), hex(&y)));
        }
        c.observe(&x);
    }
    Ok(())
}
