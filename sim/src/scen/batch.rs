//! C07: eight-at-a-time streaming against the same operations one hasher at a time.
//! C08: one-shot batch jobs against hashing each job alone.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, PSpec};
use blake2s_simd as b2;

pub fn c07(c: &mut Ctx) -> R {
    let pool = 8 + c.weighted(&[4, 2, 1, 1]);
    // `a` goes through the batch calls, `b` is the same hashers used one at a time.
    let (mut a, mut b, mut len) = (Vec::new(), Vec::new(), Vec::new());
    let same = c.chance(1, 3);
    let mut p = PSpec::default();
    let mut keyed = Vec::new();
    for i in 0..pool {
        if !same || i == 0 {
            p = gen_params(c, true);
        }
        ev!(c, "hasher {}: {:?}", i, p);
        keyed.push(!p.key.is_empty());
        a.push(open(c, &p)?);
        b.push(c.call("Params::to_state", || p.real().to_state())?);
        len.push(0u64);
    }
    let goal = c.goal(6, 25);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let op = c.weighted(&[8, 5, 3, 1, 1, 1, 1]);
        match op {
            0 => {
                let order = c.distinct(8, pool);
                let (spans, d) = lane_inputs(c, &order, &len);
                let refs: Vec<&[u8]> = spans.iter().map(|&(from, n)| &d[from..from + n]).collect();
                let lens: Vec<usize> = refs.iter().map(|r| r.len()).collect();
                ev!(c, "update8 lanes {:?} at {:?} lengths {:?}", order, order.iter().map(|&l| len[l]).collect::<Vec<_>>(), lens);
                let minlen = *lens.iter().min().unwrap();
                let worst = order.iter().map(|&l| len[l] % 64).max().unwrap();
                c.sig(&[0, size_class(minlen), worst, order[0] as u64, lens.iter().filter(|&&n| n > 64).count() as u64]);
                if minlen > 128 {
                    c.probe("update8 with all lanes long (parallel loop entered)");
                }
                if minlen == 0 {
                    c.probe("update8 with an empty lane");
                }
                c.call("update8", || update8(&mut a, &order, &refs))?;
                for (l, r) in order.iter().zip(&refs) {
                    let s = &mut b[*l];
                    c.call("State::update", || {
                        s.update(r);
                    })?;
                    len[*l] += r.len() as u64;
                    c.bytes += r.len() as u64;
                }
            }
            1 => {
                let order = c.distinct(8, pool);
                ev!(c, "finalize8 lanes {:?} at {:?}", order, order.iter().map(|&l| len[l]).collect::<Vec<_>>());
                c.sig(&[1, order[0] as u64, len[order[0]] % 64, len[order[7]] % 64]);
                let got = c.call("finalize8", || finalize8(&mut a, &order))?;
                for (pos, &l) in order.iter().enumerate() {
                    let s = &mut b[l];
                    let want = c.call("State::finalize", || s.finalize())?;
                    c.observe(got[pos].as_bytes());
                    if got[pos].as_bytes() != want.as_bytes() {
                        return fail(
                            "batched digest",
                            format!("finalize8 position {} (hasher {}, {} bytes): {}, alone {}", pos, l, len[l],
                                hex(got[pos].as_bytes()), hex(want.as_bytes())),
                        );
                    }
                }
            }
            2 => {
                let i = c.pick(pool as u64) as usize;
                let n = gen_len(c, len[i], 1);
                let d = data(c, n);
                ev!(c, "hasher {}: update({}) at {}", i, n, len[i]);
                for s in [&mut a[i], &mut b[i]].iter_mut() {
                    c.call("State::update", || {
                        s.update(&d);
                    })?;
                }
                len[i] += n as u64;
            }
            3 => {
                let i = c.pick(pool as u64) as usize;
                let on = c.chance(1, 2);
                ev!(c, "hasher {}: set_last_node({})", i, on);
                for s in [&mut a[i], &mut b[i]].iter_mut() {
                    c.call("State::set_last_node", || {
                        s.set_last_node(on);
                    })?;
                }
            }
            4 => {
                let i = c.pick(pool as u64) as usize;
                compare(c, &mut a, &mut b, i, &len)?;
            }
            5 => {
                // A checkpointed lane.
                let i = c.pick(pool as u64) as usize;
                ev!(c, "hasher {}: replaced by its clone", i);
                c.fault("crash and restore from clone");
                a[i] = c.call("State::clone", || a[i].clone())?;
            }
            _ => {
                // A refused call in the middle of batched work.
                c.fault("refused call");
                let _ = c.try_call(|| b2::Params::new().hash_length(0).to_state());
            }
        }
    }
    for i in 0..pool {
        compare(c, &mut a, &mut b, i, &len)?;
    }
    Ok(())
}

fn compare(c: &mut Ctx, a: &mut [b2::State], b: &mut [b2::State], i: usize, len: &[u64]) -> R {
    ev!(c, "hasher {}: compared at {}", i, len[i]);
    let (x, y) = (c.call("State::count", || a[i].count())?, c.call("State::count", || b[i].count())?);
    if x != y {
        return fail("batched count", format!("hasher {}: count {} in batches, {} alone", i, x, y));
    }
    let (x, y) = (c.call("State::finalize", || a[i].finalize())?, c.call("State::finalize", || b[i].finalize())?);
    c.observe(x.as_bytes());
    if x.as_bytes() != y.as_bytes() {
        return fail(
            "batched stream",
            format!("hasher {} ({} bytes): {} in batches, {} alone", i, len[i], hex(x.as_bytes()), hex(y.as_bytes())),
        );
    }
    Ok(())
}

/// Input shapes for one update8: what matters is which lanes run out when.
fn lane_inputs(c: &mut Ctx, order: &[usize], len: &[u64]) -> (Vec<(usize, usize)>, Vec<u8>) {
    let shape = c.weighted(&[3, 3, 3, 2, 2, 2, 1]);
    // A few long batches.
    let long = c.chance(1, 150);
    let base = gen_len(c, len[order[0]], if long { 20 } else { 1 }).min(if long { 300_000 } else { 20_000 });
    let most = if long { 4000 } else { 24 };
    let odd = c.pick(8) as usize;
    let lens: Vec<usize> = (0..8)
        .map(|l| {
            let room = (64 - len[order[l]] % 64) as usize % 64;
            match shape {
                0 => base,
                1 => gen_len(c, len[order[l]], 0),
                // All lanes end on (or next to) a block boundary.
                2 => room + 64 * (base / 64 % most) + [0, 1, 63][c.weighted(&[3, 1, 1])],
                // One lane is the odd one out.
                3 => {
                    if l == odd {
                        gen_len(c, len[order[l]], 0)
                    } else {
                        base
                    }
                }
                4 => {
                    if l == odd {
                        0
                    } else {
                        room + 64 * (1 + base / 64 % most) + 1
                    }
                }
                // Only one lane gets anything.
                5 => {
                    if l == odd {
                        base
                    } else {
                        0
                    }
                }
                _ => room + 64 * (1 + c.pick(6) as usize) + c.pick(3) as usize,
            }
        })
        .collect();
    // Where the inputs lie: apart, all at one place, or packed next to each other.
    let total: usize = lens.iter().sum();
    let max = *lens.iter().max().unwrap();
    match c.weighted(&[5, 1, 1, 1]) {
        0 => {
            let mut from = 0;
            let spans = lens.iter().map(|&n| {
                from += n + 40;
                (from - n - 40, n)
            });
            (spans.collect(), data(c, total + 320))
        }
        1 => {
            c.fault("inputs share memory");
            (lens.iter().map(|&n| (0, n)).collect(), data(c, max))
        }
        2 => {
            c.fault("inputs back to back in memory");
            let mut from = 0;
            let spans = lens.iter().map(|&n| {
                from += n;
                (from - n, n)
            });
            (spans.collect(), data(c, total))
        }
        _ => {
            c.fault("inputs back to back in memory");
            let mut from = total;
            let spans = lens.iter().map(|&n| {
                from -= n;
                (from, n)
            });
            (spans.collect(), data(c, total))
        }
    }
}

struct Job {
    p: usize,
    from: usize,
    len: usize,
}

pub fn c08(c: &mut Ctx) -> R {
    // A store of input memory that jobs cut their (possibly overlapping) inputs from.
    let np = 1 + c.weighted(&[2, 2, 2]);
    let mut specs = Vec::new();
    let exact_only = c.chance(1, 2);
    for i in 0..np {
        // Keyed sets go to the exact calls; hash8 may refuse them.
        let keys = exact_only || c.chance(1, 12);
        let p = gen_params(c, keys);
        ev!(c, "parameters {}: {:?}", i, p);
        specs.push(p);
    }
    let reals: Vec<b2::Params> = specs.iter().map(|p| p.real()).collect();
    let blocks = match c.weighted(&[600, 300, 100, 3]) {
        0 => 1 + c.pick(8),
        1 => 1 + c.pick(40),
        2 => 1 + c.pick(400),
        _ => 1 + c.pick(5000),
    } as usize;
    let store = data(c, 64 * blocks * if blocks <= 400 { 8 } else { 1 } + 300);
    let goal = c.goal(5, 16);
    let mut k = 0;
    // Digests already known, to see that retries agree.
    let mut known: std::collections::BTreeMap<(usize, usize, usize), Vec<u8>> = Default::default();
    while c.more(k, goal) {
        k += 1;
        let call = if exact_only { c.weighted(&[1, 1]) } else { c.weighted(&[1, 1, 4]) };
        let lanes = if call == 0 { 4 } else { 8 };
        let overlap = c.weighted(&[6, 2, 3, 2, 2]);
        let n_exact = 64 * (1 + c.pick(blocks as u64) as usize);
        let p_exact = c.pick(np as u64) as usize;
        let shape = c.weighted(&[3, 3, 2, 2, 2]);
        let base = c.pick(64 * blocks as u64 + 1) as usize;
        let odd = c.pick(8) as usize;
        let first = c.pick(300) as usize;
        let mut next = if overlap == 4 { store.len() - first } else { first };
        let jobs: Vec<Job> = (0..lanes)
            .map(|l| {
                let len = if call < 2 {
                    n_exact
                } else {
                    match shape {
                        0 => base / 64 * 64,
                        1 => c.pick(64 * blocks as u64 + 1) as usize,
                        2 => base,
                        3 => {
                            if l == odd {
                                c.pick(64 * blocks as u64 + 1) as usize
                            } else {
                                base / 64 * 64
                            }
                        }
                        _ => (base / 64 * 64 + [0, 1, 64][c.weighted(&[2, 1, 1])]).min(64 * blocks),
                    }
                };
                let from = match overlap {
                    0 => c.pick((store.len() - len) as u64 + 1) as usize,
                    1 => first.min(store.len() - len),
                    // Back to back, upwards or downwards.
                    3 => {
                        let at = if next + len <= store.len() { next } else { 0 };
                        next = at + len;
                        at
                    }
                    4 => {
                        next = if len <= next { next - len } else { store.len() - len };
                        next
                    }
                    _ => (first + l).min(store.len() - len),
                };
                let p = if call < 2 { p_exact } else { c.pick(np as u64) as usize };
                Job { p, from, len }
            })
            .collect();
        if overlap > 0 {
            c.fault(if overlap < 3 { "inputs share memory" } else { "inputs back to back in memory" });
        }
        let ins: Vec<&[u8]> = jobs.iter().map(|j| &store[j.from..j.from + j.len]).collect();
        let name = ["hash4_exact", "hash8_exact", "hash8"][call];
        ev!(c, "{} (params, offset, length): {:?}", name, jobs.iter().map(|j| (j.p, j.from, j.len)).collect::<Vec<_>>());
        let lens: Vec<usize> = jobs.iter().map(|j| j.len).collect();
        let all_equal = lens.iter().all(|&n| n == lens[0]);
        let keyed = jobs.iter().any(|j| !specs[j.p].key.is_empty());
        c.sig(&[call as u64, size_class(*lens.iter().min().unwrap()), all_equal as u64, keyed as u64, overlap as u64]);
        if call == 2 && all_equal && lens[0] > 0 && lens[0] % 64 == 0 {
            c.probe("hash8 finalizes all lanes together");
        }
        let got: Result<Vec<b2::Hash>, String> = match call {
            0 => c.try_call(|| hash4_exact(&reals[p_exact], &ins).to_vec()),
            1 => c.try_call(|| hash8_exact(&reals[p_exact], &ins).to_vec()),
            _ => {
                let ps: Vec<&b2::Params> = jobs.iter().map(|j| &reals[j.p]).collect();
                c.try_call(|| hash8(&ps, &ins).to_vec())
            }
        };
        let got = match got {
            Ok(g) => g,
            // Refusing keyed parameters is allowed; answering wrongly is not.
            Err(_) if keyed => {
                c.probe("keyed batch refused");
                continue;
            }
            Err(m) => return fail(&format!("panic in {}", name), format!("{} panicked: {}", name, m)),
        };
        if keyed {
            c.probe("keyed batch accepted");
        }
        for (l, j) in jobs.iter().enumerate() {
            c.bytes += j.len as u64;
            let again = known.contains_key(&(j.p, j.from, j.len));
            if again {
                c.fault("job retried in another batch");
            } else {
                let (p, input) = (&reals[j.p], ins[l]);
                let w = c.call("State::update", || p.to_state().update(input).finalize())?;
                known.insert((j.p, j.from, j.len), w.as_bytes().to_vec());
            }
            let want = &known[&(j.p, j.from, j.len)];
            c.observe(got[l].as_bytes());
            if got[l].as_bytes() != &want[..] {
                return fail(
                    &format!("job digest: {}", name),
                    format!("{} lane {} ({} bytes, {:?}): {}, alone {}", name, l, j.len, specs[j.p], hex(got[l].as_bytes()), hex(want)),
                );
            }
        }
    }
    Ok(())
}
