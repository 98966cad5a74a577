//! Very long streams: their contents, and the reference model's state far inside them.
//!
//! Every deep stream is a 1 MiB pattern repeated for ever, begun at a rotation. The model's
//! chaining values at the depths below were computed once by running the model over the whole
//! stream (`sim deepfix`, which the thorough tier repeats), so that a check need not spend minutes
//! in the model; the library under test really hashes every byte.

use crate::model::{Model, ModelSp};
use crate::params::PSpec;
use crate::rng::fill;

pub const PERIOD: usize = 1 << 20;
/// Slices of the pattern may be this long without wrapping.
pub const SLACK: usize = 1 << 21;
pub const ROT: [usize; 2] = [0, 300_037];
pub const DEPTHS: [u64; 4] = [(1 << 31) - (1 << 16), (1 << 32) - (1 << 16), (1 << 33) - (1 << 16), (1 << 34) - (1 << 16)];
pub const SP_DEPTHS: [u64; 3] = [(1 << 32) - (1 << 16), (1 << 34) - (1 << 19), (1 << 35) - (1 << 19)];
pub const LANES: usize = 8;

/// The pattern, long enough that `at(rot, pos)` can be sliced for SLACK bytes.
pub struct Pattern(pub Vec<u8>);
impl Pattern {
    pub fn new() -> Pattern {
        let mut v = vec![0; PERIOD];
        fill(3, 0x5eed, &mut v);
        let mut all = Vec::with_capacity(PERIOD + SLACK);
        while all.len() < PERIOD + SLACK {
            all.extend_from_slice(&v);
        }
        Pattern(all)
    }
    pub fn at(&self, rot: usize, pos: u64, n: usize) -> &[u8] {
        let i = ((pos % PERIOD as u64) as usize + rot) % PERIOD;
        &self.0[i..i + n]
    }
}

pub fn lane_spec(i: usize) -> (PSpec, usize) {
    let d = PSpec::default();
    let p = match i % 4 {
        0 => d,
        1 => PSpec { hash_length: 20, key: (1..33).collect(), ..d },
        2 => PSpec {
            hash_length: 31,
            key: vec![7; 7],
            salt: vec![1, 2, 3],
            personal: vec![9; 8],
            fanout: 3,
            max_depth: 9,
            max_leaf_length: 0x89ab_cdef,
            node_offset: 0x8765_4321_0fed,
            node_depth: 4,
            inner_hash_length: 11,
            last_node: true,
        },
        _ => PSpec { fanout: 0, max_depth: 2, node_offset: 5, node_depth: 1, inner_hash_length: 32, last_node: true, ..d },
    };
    (p, ROT[i / 4])
}

pub fn sp_spec(i: usize) -> PSpec {
    if i == 0 { PSpec::default() } else { PSpec { hash_length: 24, key: (100..132).collect(), ..PSpec::default() } }
}

/// The model of lane `i` at DEPTHS[d].
pub fn model_at(pat: &Pattern, i: usize, d: usize) -> Model {
    let (p, rot) = lane_spec(i);
    let pos = DEPTHS[d];
    Model::resume(&p, LANE_H[i][d], pos, pat.at(rot, pos - 64, 64))
}

pub fn model_sp_at(pat: &Pattern, i: usize, d: usize) -> ModelSp {
    let p = sp_spec(i);
    let pos = SP_DEPTHS[d];
    ModelSp::resume(p.hash_length, &p.key, &SP_H[i][d], pos, pat.at(0, pos - 512, 512))
}

/// Recomputes the constants below with the model; prints them, or checks them.
pub fn compute(max_depth: usize, max_sp: usize) -> (Vec<Vec<[u32; 8]>>, Vec<Vec<[[u32; 8]; 8]>>) {
    std::thread::scope(|s| {
        let lanes: Vec<_> = (0..LANES)
            .map(|i| {
                s.spawn(move || {
                    let pat = Pattern::new();
                    let (p, rot) = lane_spec(i);
                    let mut m = Model::new(&p);
                    let mut out = vec![];
                    for &d in &DEPTHS[..max_depth] {
                        while m.len < d {
                            let n = (d - m.len).min(1 << 20) as usize;
                            let at = m.len;
                            m.update(pat.at(rot, at, n));
                        }
                        out.push(m.chain());
                    }
                    out
                })
            })
            .collect();
        let sps: Vec<_> = (0..2)
            .map(|i| {
                let leaves: Vec<_> = (0..8u64)
                    .map(|leaf| {
                        s.spawn(move || {
                            let pat = Pattern::new();
                            let mine: Vec<u8> =
                                pat.0[..PERIOD].chunks(64).skip(leaf as usize).step_by(8).flatten().copied().collect();
                            let p = sp_spec(i);
                            let mut m = Model::new(&ModelSp::leaf_spec(p.hash_length, &p.key, leaf));
                            let mut out = vec![];
                            for &d in &SP_DEPTHS[..max_sp] {
                                let goal = d / 8;
                                while m.len < goal {
                                    let from = (m.len % mine.len() as u64) as usize;
                                    let n = (mine.len() - from).min((goal - m.len) as usize);
                                    m.update(&mine[from..from + n]);
                                }
                                out.push(m.chain());
                            }
                            out
                        })
                    })
                    .collect();
                leaves
            })
            .collect();
        let lanes = lanes.into_iter().map(|h| h.join().unwrap()).collect();
        let sps = sps
            .into_iter()
            .map(|leaves| {
                let per_leaf: Vec<Vec<[u32; 8]>> = leaves.into_iter().map(|h| h.join().unwrap()).collect();
                (0..max_sp).map(|d| core::array::from_fn(|l| per_leaf[l][d])).collect()
            })
            .collect();
        (lanes, sps)
    })
}

include!("deep_consts.rs");
