//! A parameter set as plain data: what the model understands, and how it is given to the library.

use crate::ctx::Ctx;
use crate::rng::fill;
use blake2s_simd as b2;

#[derive(Clone, Debug, PartialEq)]
pub struct PSpec {
    pub hash_length: usize,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf_length: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_hash_length: usize,
    pub last_node: bool,
}

impl Default for PSpec {
    fn default() -> PSpec {
        PSpec {
            hash_length: 32,
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            max_depth: 1,
            max_leaf_length: 0,
            node_offset: 0,
            node_depth: 0,
            inner_hash_length: 0,
            last_node: false,
        }
    }
}

impl PSpec {
    pub fn real(&self) -> b2::Params {
        let mut p = b2::Params::new();
        p.hash_length(self.hash_length)
            .key(&self.key)
            .salt(&self.salt)
            .personal(&self.personal)
            .fanout(self.fanout)
            .max_depth(self.max_depth)
            .max_leaf_length(self.max_leaf_length)
            .node_offset(self.node_offset)
            .node_depth(self.node_depth)
            .inner_hash_length(self.inner_hash_length)
            .last_node(self.last_node);
        p
    }

    pub fn real_sp(&self) -> b2::blake2sp::Params {
        let mut p = b2::blake2sp::Params::new();
        p.hash_length(self.hash_length).key(&self.key);
        p
    }
}

pub fn gen_bytes(c: &mut Ctx, max: usize) -> Vec<u8> {
    let n = match c.weighted(&[2, 2, 3]) {
        0 => 0,
        1 => max,
        _ => c.pick(max as u64 + 1) as usize,
    };
    gen_bytes_exact(c, n)
}

pub fn gen_bytes_exact(c: &mut Ctx, n: usize) -> Vec<u8> {
    let kind = [3, 0, 1, 2][c.weighted(&[5, 1, 1, 1])];
    let seed = if n > 0 { c.pick(1 << 24) } else { 0 };
    let mut v = vec![0; n];
    fill(kind, seed, &mut v);
    v
}

/// A byte parameter: any value, with the least, the greatest, small ones and powers of two often.
pub fn edge_u8(c: &mut Ctx, lo: u8) -> u8 {
    match c.weighted(&[2, 1, 3, 3, 1]) {
        0 => lo,
        1 => 255,
        2 => lo + c.pick(256 - lo as u64) as u8,
        3 => lo + c.pick(5) as u8,
        _ => (1u8 << c.pick(8)).max(lo),
    }
}

/// A node offset, often next to a power of two.
pub fn edge_u48(c: &mut Ctx) -> u64 {
    match c.weighted(&[2, 1, 1, 1, 3, 2, 2]) {
        0 => 0,
        1 => (1 << 48) - 1,
        2 => 1 << 32,
        3 => (1 << 32) - 1,
        4 => c.pick(1 << 48),
        5 => 1 << c.pick(48),
        _ => c.pick(9),
    }
}

pub fn edge_u32(c: &mut Ctx) -> u32 {
    match c.weighted(&[2, 2, 4, 2, 1]) {
        0 => 0,
        1 => u32::MAX,
        2 => c.pick(1 << 32) as u32,
        3 => 1 << c.pick(32),
        _ => 1 + c.pick(8) as u32,
    }
}

/// An accepted parameter set, from all-default to all-extreme. `keys`: whether a key may be set.
pub fn gen_params(c: &mut Ctx, keys: bool) -> PSpec {
    let mut p = PSpec::default();
    let style = c.weighted(&[4, 3, 2, 4]);
    // default, key/length only, everything, random subset
    let all = style == 2;
    let some = style == 3;
    if style == 0 {
        return p;
    }
    if keys && (all || c.chance(1, 2)) {
        let mut n = match c.weighted(&[2, 2, 3]) {
            0 => 1,
            1 => 32,
            _ => 1 + c.pick(32) as usize,
        };
        n = n.min(32);
        p.key = gen_bytes_exact(c, n);
    }
    if all || c.chance(1, 2) {
        p.hash_length = match c.weighted(&[2, 2, 4, 1]) {
            0 => 32,
            1 => 1,
            2 => 1 + c.pick(32) as usize,
            _ => 31,
        };
    }
    if all || (some && c.chance(1, 2)) {
        p.salt = gen_bytes(c, 8);
    }
    if all || (some && c.chance(1, 2)) {
        p.personal = gen_bytes(c, 8);
    }
    if all || (some && c.chance(1, 3)) {
        p.fanout = edge_u8(c, 0);
    }
    if all || (some && c.chance(1, 3)) {
        p.max_depth = edge_u8(c, 1);
    }
    if all || (some && c.chance(1, 3)) {
        p.max_leaf_length = edge_u32(c);
    }
    if all || (some && c.chance(1, 3)) {
        p.node_offset = edge_u48(c);
    }
    if all || (some && c.chance(1, 3)) {
        p.node_depth = edge_u8(c, 0);
    }
    if all || (some && c.chance(1, 3)) {
        p.inner_hash_length = c.pick(33) as usize;
    }
    if all || (some && c.chance(1, 3)) {
        p.last_node = c.chance(1, 2);
    }
    p
}

pub fn gen_sp_params(c: &mut Ctx) -> PSpec {
    let mut p = PSpec::default();
    if c.chance(1, 2) {
        let n = match c.weighted(&[1, 2, 3]) {
            0 => 1,
            1 => 32,
            _ => 1 + c.pick(32) as usize,
        };
        p.key = gen_bytes_exact(c, n);
    }
    if c.chance(1, 3) {
        p.hash_length = 1 + c.pick(32) as usize;
    }
    p
}

/// Piece lengths aimed at the boundaries that matter: relative to what is already pending, block
/// multiples, BLAKE2sp's buffer thresholds, 8/16-bit limits, plus plain random ones. `total` is
/// what has been fed so far, `big` scales how often long pieces appear.
pub fn gen_len(c: &mut Ctx, total: u64, big: u64) -> usize {
    let d = |c: &mut Ctx| [0i64, 1, -1][c.weighted(&[2, 2, 2])];
    let n: i64 = match c.weighted(&[3, 5, 6, 6, 5, 4, 6, big, big]) {
        0 => 0,
        1 => 1 + c.pick(16) as i64,
        2 => {
            let r = (total % 64) as i64;
            64 - r + 64 * c.pick(20) as i64 + d(c)
        }
        3 => 64 * c.pick(41) as i64 + d(c),
        4 => c.pick(300) as i64,
        5 => c.pick(4097) as i64,
        6 => {
            // BLAKE2sp: free space in its double buffer, then 7, 8, 15, 16 ... more blocks.
            let r = (total % 512) as i64;
            let base = [512 - r, 1024 - r, 0][c.weighted(&[3, 3, 1])];
            let blocks = [0i64, 7, 8, 15, 16, 1, 23, 24, 31][c.weighted(&[3, 4, 2, 4, 2, 1, 1, 1, 1])];
            base + 64 * blocks + d(c)
        }
        7 => {
            // Now and then up to 2 MiB.
            let k = if c.chance(1, 48) { 17 + c.pick(4) } else { c.pick(17) };
            (1i64 << k) + c.pick(1 << k) as i64 + d(c)
        }
        _ => {
            let goal = [256i64, 65536, 131072][c.weighted(&[2, 3, 1])];
            let r = if c.chance(1, 2) { (total % goal as u64) as i64 } else { 0 };
            goal - r + d(c)
        }
    };
    n.max(0) as usize
}

/// Fresh input bytes (content mostly random, sometimes constant).
pub fn gen_piece(c: &mut Ctx, n: usize) -> Vec<u8> {
    gen_bytes_exact(c, n)
}
