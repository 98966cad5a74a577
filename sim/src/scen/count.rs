//! C04: the byte count is exact. After every operation the count is compared with the number of
//! bytes fed. In "transfer" runs a sender that is cut off at arbitrary points asks the hasher how
//! far it got and resumes from there; the digest must then be that of the whole file.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params};
use blake2s_simd as b2;

pub fn c04(c: &mut Ctx) -> R {
    if c.chance(1, 4) {
        return transfer(c);
    }
    let pool = [1usize, 2, 8, 9][c.weighted(&[4, 2, 5, 1])];
    let nsp = [1usize, 0, 2][c.weighted(&[3, 2, 1])];
    let mut s = Vec::new();
    let mut len = Vec::new();
    for i in 0..pool {
        let p = gen_params(c, true);
        ev!(c, "hasher {}: {:?}", i, p);
        s.push(open(c, &p)?);
        len.push(0u64);
        let got = c.call("State::count", || s[i].count())?;
        c.check_count("fresh State", got, 0)?;
    }
    let mut sp = Vec::new();
    let mut slen = Vec::new();
    for i in 0..nsp {
        let p = gen_sp_params(c);
        ev!(c, "blake2sp hasher {}: hash_length {} key {}", i, p.hash_length, p.key.len());
        sp.push(open_sp(c, &p)?);
        slen.push(0u64);
        let got = c.call("blake2sp::State::count", || sp[i].count())?;
        c.check_count("fresh blake2sp::State", got, 0)?;
    }
    let goal = c.goal(12, 60);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let i = c.pick(pool as u64) as usize;
        let batch = if pool >= 8 { 3 } else { 0 };
        let w = 6 * (nsp > 0) as u64;
        let op = c.weighted(&[8, 2, batch, batch, 2, 1, 1, w, w / 3, 1]);
        match op {
            0 => {
                let n = gen_len(c, len[i], 1);
                let d = data(c, n);
                ev!(c, "hasher {}: update({}) at {}", i, n, len[i]);
                c.sig(&[0, len[i] % 64, size_class(n)]);
                let h = &mut s[i];
                c.call("State::update", || {
                    h.update(&d);
                })?;
                len[i] += n as u64;
                c.bytes += n as u64;
            }
            1 => {
                ev!(c, "hasher {}: digest", i);
                let h = &mut s[i];
                c.call("State::finalize", || h.finalize())?;
            }
            2 => {
                let order = c.distinct(8, pool);
                let shape = c.weighted(&[2, 2, 1]);
                let base = gen_len(c, len[order[0]], 0);
                let lens: Vec<usize> = (0..8)
                    .map(|l| match shape {
                        0 => base,
                        1 => gen_len(c, len[order[l]], 0),
                        _ => base + c.pick(3) as usize,
                    })
                    .collect();
                let d: Vec<Vec<u8>> = lens.iter().map(|&n| data(c, n)).collect();
                let refs: Vec<&[u8]> = d.iter().map(|v| &v[..]).collect();
                ev!(c, "update8 lanes {:?} lengths {:?}", order, lens);
                c.sig(&[2, shape as u64, size_class(base), lens.iter().filter(|&&n| n > 64).count() as u64]);
                c.call("update8", || update8(&mut s, &order, &refs))?;
                for l in 0..8 {
                    len[order[l]] += lens[l] as u64;
                    c.bytes += lens[l] as u64;
                }
            }
            3 => {
                let order = c.distinct(8, pool);
                ev!(c, "finalize8 lanes {:?}", order);
                c.call("finalize8", || finalize8(&mut s, &order))?;
            }
            4 => {
                // Crash: the hasher is replaced by a clone (its checkpoint).
                ev!(c, "hasher {}: replaced by its clone", i);
                c.fault("crash and restore from clone");
                s[i] = c.call("State::clone", || s[i].clone())?;
            }
            5 => {
                // A refused batch call, and the count afterwards.
                ev!(c, "hasher {}: refused hash4_exact", i);
                c.fault("refused call");
                let _ = c.try_call(|| b2::hash4_exact(&b2::Params::new(), &[1], &[], &[], &[]));
            }
            6 => {
                let on = c.chance(1, 2);
                let h = &mut s[i];
                ev!(c, "hasher {}: set_last_node({})", i, on);
                c.call("State::set_last_node", || {
                    h.set_last_node(on);
                })?;
            }
            7 | 8 => {
                let j = c.pick(nsp as u64) as usize;
                let h = &mut sp[j];
                if op == 7 {
                    let n = gen_len(c, slen[j], 1);
                    let d = data(c, n);
                    ev!(c, "blake2sp {}: update({}) at {}", j, n, slen[j]);
                    c.sig(&[7, slen[j] % 1024 / 8, size_class(n)]);
                    c.call("blake2sp::State::update", || {
                        h.update(&d);
                    })?;
                    slen[j] += n as u64;
                    c.bytes += n as u64;
                } else {
                    ev!(c, "blake2sp {}: digest", j);
                    c.call("blake2sp::State::finalize", || h.finalize())?;
                }
            }
            _ => write_some(c, &mut s[i], &mut len[i])?,
        }
        // Every live hasher is asked, not only the one that moved.
        for i in 0..pool {
            let got = c.call("State::count", || s[i].count())?;
            c.check_count("State", got, len[i])?;
        }
        for j in 0..nsp {
            let got = c.call("blake2sp::State::count", || sp[j].count())?;
            c.check_count("blake2sp::State", got, slen[j])?;
        }
    }
    Ok(())
}

#[cfg(feature = "std")]
fn write_some(c: &mut Ctx, s: &mut b2::State, len: &mut u64) -> R {
    use std::io::Write;
    let n = gen_len(c, *len, 1);
    let d = data(c, n);
    ev!(c, "write({})", n);
    match c.call("write", || s.write(&d))? {
        // Only the acknowledged part counts.
        Ok(k) => *len += k.min(n) as u64,
        Err(_) => {}
    }
    c.call("flush", || s.flush())?.ok();
    Ok(())
}
#[cfg(not(feature = "std"))]
fn write_some(_: &mut Ctx, _: &mut b2::State, _: &mut u64) -> R {
    Ok(())
}

/// The receiver crashes and restarts from a checkpoint; the sender resumes wherever count() says.
fn transfer(c: &mut Ctx) -> R {
    let total = [0usize, 1, 0][c.weighted(&[0, 1, 4])];
    let total = if total == 1 { c.pick(5) as usize } else { 1 + c.pick(20_000) as usize };
    let file = data(c, total);
    let with_sp = c.chance(1, 2);
    let p = if with_sp { gen_sp_params(c) } else { gen_params(c, true) };
    ev!(c, "transfer of {} bytes, {}, key {}", total, if with_sp { "blake2sp" } else { "blake2s" }, p.key.len());
    if with_sp {
        let mut s = open_sp(c, &p)?;
        let mut rounds = 0;
        loop {
            let at = c.call("blake2sp::State::count", || s.count())?;
            if at > total as u64 {
                return fail("resume: blake2sp", format!("count() {} is past the end of a {} byte file", at, total));
            }
            let at = at as usize;
            if at == total || rounds > 400 {
                break;
            }
            rounds += 1;
            // The connection lives for one piece.
            let n = if rounds > 60 { total - at } else { gen_len(c, at as u64, 1).min(total - at) };
            ev!(c, "resume at {}, {} bytes before the connection drops", at, n);
            c.fault("connection lost, resumed at count()");
            c.call("blake2sp::State::update", || {
                s.update(&file[at..at + n]);
            })?;
        }
        let mut t = p.real_sp().to_state();
        let want = c.call("reference", || t.update(&file).finalize())?;
        let got = c.call("blake2sp::State::finalize", || s.finalize())?;
        if got.as_bytes() != want.as_bytes() {
            return fail("resume: blake2sp", format!("resumed transfer gives {}, whole file {}", hex(got.as_bytes()), hex(want.as_bytes())));
        }
        return Ok(());
    }
    let mut s = open(c, &p)?;
    let mut saved = c.call("State::clone", || s.clone())?;
    let mut rounds = 0;
    loop {
        let at = c.call("State::count", || s.count())?;
        if at > total as u64 {
            return fail("resume: blake2s", format!("count() {} is past the end of a {} byte file", at, total));
        }
        let at = at as usize;
        if at == total || rounds > 400 {
            break;
        }
        rounds += 1;
        let n = if rounds > 60 { total - at } else { gen_len(c, at as u64, 1).min(total - at) };
        ev!(c, "resume at {}, {} bytes before the connection drops", at, n);
        c.fault("connection lost, resumed at count()");
        c.call("State::update", || {
            s.update(&file[at..at + n]);
        })?;
        match c.weighted(&[4, 2, 2]) {
            0 => {}
            1 => {
                ev!(c, "checkpoint");
                saved = c.call("State::clone", || s.clone())?;
            }
            _ => {
                if rounds <= 60 {
                    ev!(c, "crash, back to the checkpoint");
                    c.fault("receiver crash, restart from checkpoint");
                    s = c.call("State::clone", || saved.clone())?;
                }
            }
        }
    }
    let mut t = p.real().to_state();
    let want = c.call("reference", || t.update(&file).finalize())?;
    let got = c.call("State::finalize", || s.finalize())?;
    if got.as_bytes() != want.as_bytes() {
        return fail("resume: blake2s", format!("resumed transfer gives {}, whole file {}", hex(got.as_bytes()), hex(want.as_bytes())));
    }
    Ok(())
}
