//! C09: the same sequence of calls on different hosts. The run records everything the library
//! answers (digests, counts, texts, refusals); there is no oracle in here, the driver compares the
//! records of different builds and (simulated) machines.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params};
use b2::blake2sp;
use blake2s_simd as b2;

/// For interpreters: little data.
pub fn c09(c: &mut Ctx) -> R {
    program(c, false)
}
pub fn c09wide(c: &mut Ctx) -> R {
    program(c, true)
}

fn length(c: &mut Ctx, total: u64, wide: bool) -> usize {
    if wide {
        return gen_len(c, total, 1);
    }
    let r = total % 64;
    match c.weighted(&[4, 3, 2, 1]) {
        0 => c.pick(70) as usize,
        1 => (64 - r + 64 * c.pick(3)) as usize,
        2 => (64 - r + 64 * c.pick(2) + c.pick(3)) as usize - 1,
        _ => c.pick(260) as usize,
    }
}

fn note(c: &mut Ctx, what: &str, r: Result<Vec<u8>, String>) {
    match r {
        Ok(v) => {
            ev!(c, "{} -> {}", what, hex(&v[..v.len().min(80)]));
            c.observe(&[1]);
            c.observe(&v);
        }
        Err(_) => {
            // That it is refused must agree; the words need not.
            ev!(c, "{} -> refused", what);
            c.observe(&[0]);
        }
    }
}

fn flat(h: &[b2::Hash]) -> Vec<u8> {
    h.iter().flat_map(|x| {
        let mut v = vec![x.as_bytes().len() as u8];
        v.extend_from_slice(x.as_bytes());
        v
    }).collect()
}

fn program(c: &mut Ctx, wide: bool) -> R {
    let mut pool: Vec<(b2::State, u64)> = vec![];
    let batch = c.chance(1, 2);
    for _ in 0..if batch { 8 } else { 1 } {
        let p = gen_params(c, true);
        let s = c.call("Params::to_state", || p.real().to_state())?;
        pool.push((s, 0));
    }
    let spec = gen_sp_params(c);
    let mut sp = (c.call("blake2sp::Params::to_state", || spec.real_sp().to_state())?, 0u64);
    ev!(c, "{} hashers; blake2sp of {} key bytes", pool.len(), spec.key.len());
    let goal = if wide { c.goal(8, 30) } else { c.goal(3, 7) };
    let mut done = 0;
    while c.more(done, goal) {
        done += 1;
        let i = c.pick(pool.len() as u64) as usize;
        match c.weighted(&[5, 3, 4, 4, 2, 2, 3, 3, 3, 2, 2, 1, 3, 1]) {
            0 => {
                let k = length(c, pool[i].1, wide);
                let d = data(c, k);
                let s = &mut pool[i].0;
                let r = c.try_call(|| {
                    s.update(&d);
                });
                pool[i].1 += d.len() as u64;
                note(c, &format!("hasher {} update({})", i, d.len()), r.map(|_| vec![]));
            }
            1 => {
                let s = &mut pool[i].0;
                let r = c.try_call(|| s.finalize());
                note(c, &format!("hasher {} finalize", i), r.map(|h| flat(&[h])));
            }
            2 => {
                let k = length(c, sp.1, wide) * if wide { 1 } else { 1 + c.pick(5) as usize };
                let d = data(c, k);
                let s = &mut sp.0;
                let r = c.try_call(|| {
                    s.update(&d);
                });
                sp.1 += d.len() as u64;
                note(c, &format!("blake2sp update({})", d.len()), r.map(|_| vec![]));
            }
            3 => {
                let s = &mut sp.0;
                let r = c.try_call(|| s.finalize());
                note(c, "blake2sp finalize", r.map(|h| flat(&[h])));
            }
            4 if batch => {
                let order = c.distinct(8, 8);
                let same = c.chance(1, 3);
                let k0 = length(c, pool[0].1, wide);
                let all: Vec<Vec<u8>> = order
                    .iter()
                    .map(|&i| {
                        let k = if same { k0 } else { length(c, pool[i].1, wide) };
                        data(c, k)
                    })
                    .collect();
                let inputs: Vec<&[u8]> = all.iter().map(|d| &d[..]).collect();
                let mut states: Vec<b2::State> = pool.iter().map(|x| x.0.clone()).collect();
                let r = c.try_call(|| update8(&mut states, &order, &inputs));
                for (i, s) in states.into_iter().enumerate() {
                    pool[i].0 = s;
                }
                for (k, &i) in order.iter().enumerate() {
                    pool[i].1 += inputs[k].len() as u64;
                }
                note(c, &format!("update8 {:?} {:?}", order, inputs.iter().map(|d| d.len()).collect::<Vec<_>>()), r.map(|_| vec![]));
            }
            5 if batch => {
                let order = c.distinct(8, 8);
                let mut states: Vec<b2::State> = pool.iter().map(|x| x.0.clone()).collect();
                let r = c.try_call(|| finalize8(&mut states, &order));
                note(c, &format!("finalize8 {:?}", order), r.map(|h| flat(&h)));
            }
            6 => {
                let k = length(c, 0, wide);
                let d = data(c, k);
                let r = if c.chance(1, 2) {
                    c.try_call(|| b2::blake2s(&d))
                } else {
                    c.try_call(|| blake2sp::blake2sp(&d))
                };
                note(c, &format!("one-shot of {}", d.len()), r.map(|h| flat(&[h])));
            }
            7 => {
                let p = gen_params(c, true).real();
                let four = c.chance(1, 2);
                let k = 64 * (1 + c.pick(if wide { 40 } else { 2 }) as usize);
                let d = data(c, k + 100);
                let off: Vec<usize> = (0..8).map(|_| c.pick(100) as usize).collect();
                // Now and then one of them has a length that must be refused.
                let odd = if c.chance(1, 6) { c.pick(8) as usize } else { 8 };
                let inputs: Vec<&[u8]> =
                    (0..8).map(|i| &d[off[i]..off[i] + if i == odd { k - 1 } else { k }]).collect();
                let r = if four {
                    c.try_call(|| flat(&hash4_exact(&p, &inputs)))
                } else {
                    c.try_call(|| flat(&hash8_exact(&p, &inputs)))
                };
                note(c, &format!("hash{}_exact of {} (odd {})", if four { 4 } else { 8 }, k, odd), r);
            }
            8 => {
                let ps: Vec<b2::Params> = (0..8).map(|_| gen_params(c, false).real()).collect();
                let refs: Vec<&b2::Params> = ps.iter().collect();
                let same = c.chance(1, 2);
                let k = length(c, 0, wide);
                let d = data(c, 8 * 300.max(k));
                let lens: Vec<usize> = (0..8).map(|_| if same { k } else { c.pick(140) as usize }).collect();
                let inputs: Vec<&[u8]> = (0..8).map(|i| &d[i * 7..i * 7 + lens[i]]).collect();
                let r = c.try_call(|| hash8(&refs, &inputs));
                note(c, &format!("hash8 of {:?}", lens), r.map(|h| flat(&h)));
            }
            9 => {
                ev!(c, "hasher {}: portable from here on", i);
                c.fault("implementation forced part-way");
                let s = &mut pool[i].0;
                let _ = c.try_call(|| b2::benchmarks::force_portable(s));
            }
            10 => {
                ev!(c, "blake2sp: portable from here on");
                c.fault("implementation forced part-way");
                let s = &mut sp.0;
                let _ = c.try_call(|| b2::benchmarks::force_portable_blake2sp(s));
            }
            11 => {
                let last = c.chance(1, 2);
                let s = &mut pool[i].0;
                let r = c.try_call(|| {
                    s.set_last_node(last);
                });
                note(c, &format!("hasher {} set_last_node({})", i, last), r.map(|_| vec![]));
            }
            12 => {
                // Limits, on both sides.
                let p = gen_params(c, true);
                let v = match c.weighted(&[3, 2, 1]) {
                    0 => c.pick(40) as usize,
                    1 => [255, 256, 257, 0, 65536][c.pick(5) as usize],
                    _ => u32::MAX as usize - c.pick(2) as usize,
                };
                let which = c.pick(8);
                let blob = data(c, v.min(300));
                let mut q = p.real();
                let mut qs = blake2sp::Params::new();
                let wide_offset = [(1u64 << 48) - 1, 1 << 48, u64::MAX, v as u64][c.pick(4) as usize];
                let r = c.try_call(|| match which {
                    0 => { q.hash_length(v); }
                    1 => { q.key(&blob); }
                    2 => { q.salt(&blob); }
                    3 => { q.personal(&blob); }
                    4 => { q.inner_hash_length(v); }
                    5 => { q.max_depth(v as u8); }
                    6 => { q.node_offset(wide_offset); }
                    _ => { qs.hash_length(v); }
                });
                c.fault("argument at or past a limit");
                let ok = r.is_ok();
                note(c, &format!("setter {} with {} / {} bytes / {}", which, v, blob.len(), wide_offset), r.map(|_| vec![]));
                if ok {
                    let r = c.try_call(|| {
                        let mut v = flat(&[q.to_state().update(b"x").finalize()]);
                        v.extend(flat(&[qs.to_state().update(b"x").finalize()]));
                        v
                    });
                    note(c, "a hasher made from it", r);
                }
            }
            _ => {
                let (s, t) = (&pool[i].0, &sp.0);
                let r = c.try_call(|| format!("{} {} {:?} {:?} {:?}", s.count(), t.count(), s, t, s.clone().finalize()));
                note(c, &format!("hasher {} count and debug text", i), r.map(|s| s.into_bytes()));
            }
        }
        c.sig(&[done.min(8), pool[i].1 % 64, size_class(sp.1 as usize), batch as u64]);
    }
    let mut states: Vec<b2::State> = pool.into_iter().map(|x| x.0).collect();
    let r = c.try_call(|| flat(&states.iter_mut().map(|s| s.finalize()).collect::<Vec<_>>()));
    note(c, "all hashers finalize", r);
    let s = &mut sp.0;
    let r = c.try_call(|| s.finalize());
    note(c, "blake2sp finalize", r.map(|h| flat(&[h])));
    Ok(())
}

/// An implementation forced at any point of a hasher's life: every answer from there on is the one
/// of a twin that keeps the implementation this host chose.
pub fn c09forced(c: &mut Ctx) -> R {
    let batch = c.chance(1, 2);
    let n = if batch { 8 } else { 1 };
    let mut a: Vec<b2::State> = vec![];
    for _ in 0..n {
        let p = gen_params(c, true);
        a.push(c.call("Params::to_state", || p.real().to_state())?);
    }
    let mut b = a.clone();
    let mut len = vec![0u64; n];
    let spec = gen_sp_params(c);
    let mut sa = c.call("blake2sp::Params::to_state", || spec.real_sp().to_state())?;
    let mut sb = c.call("blake2sp::Params::to_state", || spec.real_sp().to_state())?;
    let mut slen = 0u64;
    let mut forced = vec![false; n + 1];
    ev!(c, "{} hashers; blake2sp of {} key bytes", n, spec.key.len());
    let goal = c.goal(8, 30);
    let mut done = 0;
    while c.more(done, goal) {
        done += 1;
        let i = c.pick(n as u64) as usize;
        let w8 = if batch { 3 } else { 0 };
        let op = c.weighted(&[5, 3, 4, 4, w8, w8, 3, 3, 1, 2]);
        c.sig(&[op as u64, len[i] % 64, slen % 1024 / 32, forced[i] as u64, forced[n] as u64]);
        match op {
            0 => {
                let k = gen_len(c, len[i], 1);
                let d = data(c, k);
                ev!(c, "hasher {} update({})", i, k);
                let (x, y) = (&mut a[i], &mut b[i]);
                let r = (c.try_call(|| drop(x.update(&d))).is_ok(), c.try_call(|| drop(y.update(&d))).is_ok());
                len[i] += k as u64;
                alike("update", &[r.0 as u8], &[r.1 as u8])?;
            }
            1 => {
                ev!(c, "hasher {} finalize", i);
                let (x, y) = (&mut a[i], &mut b[i]);
                let r = (c.try_call(|| flat(&[x.finalize()])), c.try_call(|| flat(&[y.finalize()])));
                answers(c, "finalize", r)?;
            }
            2 => {
                let k = gen_len(c, slen, 1);
                let d = data(c, k);
                ev!(c, "blake2sp update({})", k);
                let r = (c.try_call(|| drop(sa.update(&d))).is_ok(), c.try_call(|| drop(sb.update(&d))).is_ok());
                slen += k as u64;
                alike("blake2sp update", &[r.0 as u8], &[r.1 as u8])?;
            }
            3 => {
                ev!(c, "blake2sp finalize");
                let r = (c.try_call(|| flat(&[sa.finalize()])), c.try_call(|| flat(&[sb.finalize()])));
                answers(c, "blake2sp finalize", r)?;
            }
            4 => {
                let order = c.distinct(8, 8);
                let base = gen_len(c, len[order[0]], 0);
                let lens: Vec<usize> = (0..8).map(|_| if c.chance(1, 4) { c.pick(200) as usize } else { base }).collect();
                let d: Vec<Vec<u8>> = lens.iter().map(|&m| data(c, m)).collect();
                let refs: Vec<&[u8]> = d.iter().map(|v| &v[..]).collect();
                ev!(c, "update8 lanes {:?} lengths {:?}", order, lens);
                let r = (c.try_call(|| update8(&mut a, &order, &refs)).is_ok(), c.try_call(|| update8(&mut b, &order, &refs)).is_ok());
                for l in 0..8 {
                    len[order[l]] += lens[l] as u64;
                }
                alike("update8", &[r.0 as u8], &[r.1 as u8])?;
            }
            5 => {
                let order = c.distinct(8, 8);
                ev!(c, "finalize8 lanes {:?}", order);
                let r = (c.try_call(|| flat(&finalize8(&mut a, &order))), c.try_call(|| flat(&finalize8(&mut b, &order))));
                answers(c, "finalize8", r)?;
            }
            6 => {
                ev!(c, "hasher {}: portable from here on", i);
                c.fault("implementation forced part-way");
                let x = &mut a[i];
                c.call("force_portable", || b2::benchmarks::force_portable(x))?;
                forced[i] = true;
            }
            7 => {
                ev!(c, "blake2sp: portable from here on");
                c.fault("implementation forced part-way");
                c.call("force_portable_blake2sp", || b2::benchmarks::force_portable_blake2sp(&mut sa))?;
                forced[n] = true;
            }
            8 => {
                let last = c.chance(1, 2);
                ev!(c, "hasher {} set_last_node({})", i, last);
                let (x, y) = (&mut a[i], &mut b[i]);
                c.call("State::set_last_node", || {
                    x.set_last_node(last);
                    y.set_last_node(last);
                })?;
            }
            _ => {
                ev!(c, "hasher {}: count and debug text, a clone takes over", i);
                let x = c.try_call(|| format!("{} {} {:?} {:?}", a[i].count(), sa.count(), a[i], sa));
                let y = c.try_call(|| format!("{} {} {:?} {:?}", b[i].count(), sb.count(), b[i], sb));
                answers(c, "count and debug text", (x.map(|s| s.into_bytes()), y.map(|s| s.into_bytes())))?;
                a[i] = a[i].clone();
            }
        }
    }
    for i in 0..n {
        let (x, y) = (&mut a[i], &mut b[i]);
        let r = (c.try_call(|| flat(&[x.finalize()])), c.try_call(|| flat(&[y.finalize()])));
        answers(c, "finalize", r)?;
    }
    let r = (c.try_call(|| flat(&[sa.finalize()])), c.try_call(|| flat(&[sb.finalize()])));
    answers(c, "blake2sp finalize", r)
}

fn alike(what: &str, got: &[u8], want: &[u8]) -> R {
    if got != want {
        return fail(
            &format!("forced implementation: {}", what),
            format!("{}: {} after an implementation was forced, {} without", what, hex(got), hex(want)),
        );
    }
    Ok(())
}

fn answers(c: &mut Ctx, what: &str, r: (Result<Vec<u8>, String>, Result<Vec<u8>, String>)) -> R {
    if let Ok(v) = &r.0 {
        c.observe(v);
    }
    alike(what, &r.0.unwrap_or_default(), &r.1.unwrap_or_default())
}
