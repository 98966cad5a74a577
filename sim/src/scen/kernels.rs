//! C15, the compression functions themselves: each implementation the crate exposes for its
//! benchmarks is run on random chaining values, blocks and flags, with byte counts anywhere in 64
//! bits and different in every lane, as they would be in streams too long to hash in any test. The
//! oracle is the reference model's compression function.
//!
//! Only built when the crate still exposes these functions in their present form (the `kernels`
//! feature): they are not part of its documented interface.

use crate::ctx::{fail, Ctx, R};
use crate::model;
use crate::rng::fill;
use b2::benchmarks as b;
use b2::AlignedWords8;
use blake2s_simd as b2;

struct Job {
    h: [u32; 8],
    block: [u8; 64],
    count: u64,
    last: bool,
    node: bool,
}

fn flag(b: bool) -> u32 {
    if b { !0 } else { 0 }
}

fn count(c: &mut Ctx) -> u64 {
    let k = 6 + c.pick(58);
    let edge = (1u64 << k).wrapping_add([0, 64, -64i64, 1, -1, 63][c.pick(6) as usize] as u64);
    match c.weighted(&[1, 4, 2, 1]) {
        0 => c.pick(1 << 20),
        1 => edge,
        2 => edge.wrapping_add(c.pick(1 << 40)),
        _ => edge.wrapping_neg(),
    }
}

fn job(c: &mut Ctx, shared: Option<(u64, bool)>) -> Job {
    let mut raw = [0u8; 96];
    fill(3, c.pick(1 << 40), &mut raw);
    let mut h = [0; 8];
    for i in 0..8 {
        h[i] = u32::from_le_bytes(raw[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut block = [0; 64];
    block.copy_from_slice(&raw[32..]);
    let (count, last) = match shared {
        Some(s) => s,
        None => (count(c), c.chance(1, 2)),
    };
    Job { h, block, count, last, node: last && c.chance(1, 2) }
}

fn judge(c: &mut Ctx, which: &str, lane: usize, j: &Job, got: &[u32; 8]) -> R {
    let mut want = j.h;
    model::compress(&mut want, &j.block, j.count, j.last, j.node);
    c.observe(&got[0].to_le_bytes());
    if *got != want {
        return fail(
            &format!("compression: {}", which),
            format!("lane {} at count {} (last {}, last node {}): {:08x?}, the model {:08x?}", lane, j.count, j.last, j.node, got, want),
        );
    }
    Ok(())
}

macro_rules! eight {
    ($f:expr, $h:ident, $j:ident) => {{
        let mut it = $h.iter_mut();
        let mut n = || it.next().unwrap();
        $f(
            n(), n(), n(), n(), n(), n(), n(), n(),
            &$j[0].block, &$j[1].block, &$j[2].block, &$j[3].block, &$j[4].block, &$j[5].block, &$j[6].block, &$j[7].block,
            $j[0].count, $j[1].count, $j[2].count, $j[3].count, $j[4].count, $j[5].count, $j[6].count, $j[7].count,
            flag($j[0].last), flag($j[1].last), flag($j[2].last), flag($j[3].last),
            flag($j[4].last), flag($j[5].last), flag($j[6].last), flag($j[7].last),
            flag($j[0].node), flag($j[1].node), flag($j[2].node), flag($j[3].node),
            flag($j[4].node), flag($j[5].node), flag($j[6].node), flag($j[7].node),
        )
    }};
}

pub fn c15kernel(c: &mut Ctx) -> R {
    let avx2 = std::is_x86_feature_detected!("avx2");
    let sse41 = std::is_x86_feature_detected!("sse4.1");
    let goal = c.goal(4, 20);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let op = c.pick(5);
        if (op == 1 && !sse41) || (op >= 3 && !avx2) {
            continue;
        }
        if op < 2 {
            let j = job(c, None);
            let mut h = j.h;
            let which = if op == 0 { "portable" } else { "sse4.1" };
            ev!(c, "{} compression at count {}", which, j.count);
            c.call(which, || unsafe {
                if op == 0 {
                    b::compress_portable(&mut h, &j.block, j.count, flag(j.last), flag(j.node))
                } else {
                    b::compress_sse41(&mut h, &j.block, j.count, flag(j.last), flag(j.node))
                }
            })?;
            c.sig(&[op, 64 - j.count.leading_zeros() as u64, j.last as u64, j.node as u64]);
            judge(c, which, 0, &j, &h)?;
            continue;
        }
        // The vectorized form is only ever called with one count and one block flag for all lanes.
        let shared = if op == 4 { Some((count(c), c.chance(1, 2))) } else { None };
        let j: Vec<Job> = (0..8).map(|_| job(c, shared)).collect();
        let mut h: Vec<[u32; 8]> = j.iter().map(|j| j.h).collect();
        let which = ["", "", "portable, eight lanes", "avx2, eight lanes", "avx2, transposed"][op as usize];
        ev!(c, "{} at counts {:?}", which, j.iter().map(|j| j.count).collect::<Vec<_>>());
        match op {
            2 => c.call(which, || eight!(b::compress8_portable, h, j))?,
            3 => c.call(which, || unsafe { eight!(b::compress8_avx2, h, j) })?,
            _ => {
                let mut words = [AlignedWords8([0; 8]); 8];
                for i in 0..8 {
                    for l in 0..8 {
                        words[i].0[l] = h[l][i];
                    }
                }
                let all = |f: &dyn Fn(&Job) -> u32| {
                    let mut w = [0; 8];
                    for i in 0..8 {
                        w[i] = f(&j[i]);
                    }
                    AlignedWords8(w)
                };
                let (low, high) = (all(&|j| j.count as u32), all(&|j| (j.count >> 32) as u32));
                let (last, node) = (all(&|j| flag(j.last)), all(&|j| flag(j.node)));
                c.call(which, || unsafe {
                    b::compress8_vectorized_avx2(
                        &mut words,
                        &j[0].block, &j[1].block, &j[2].block, &j[3].block, &j[4].block, &j[5].block, &j[6].block, &j[7].block,
                        &low, &high, &last, &node,
                    )
                })?;
                for i in 0..8 {
                    for l in 0..8 {
                        h[l][i] = words[i].0[l];
                    }
                }
            }
        }
        for l in 0..8 {
            c.sig(&[op, l as u64, 64 - j[l].count.leading_zeros() as u64, j[l].last as u64]);
            judge(c, which, l, &j[l], &h[l])?;
        }
    }
    Ok(())
}
