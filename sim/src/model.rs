//! Executable reference: BLAKE2s (RFC 7693 plus the BLAKE2 tree parameters) and BLAKE2sp, written
//! from the specification, one block at a time, sharing no code with the library under test. It is
//! self-tested at start-up against vectors produced by Python's hashlib (see fixtures.rs).

use crate::params::PSpec;

const IV: [u32; 8] = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];

/// RFC 7693 section 2.7.
const SCHEDULE: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

#[inline(always)]
fn mix(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}

/// RFC 7693 section 3.2, with the second finalization word used by the tree modes.
pub fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool, last_node: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= (t & 0xffff_ffff) as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
        if last_node {
            v[15] = !v[15];
        }
    }
    for s in &SCHEDULE {
        mix(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        mix(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        mix(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        mix(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        mix(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        mix(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        mix(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        mix(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

/// A streaming reference hasher. `pend` holds the bytes not yet compressed; a block is compressed
/// only once a later byte exists, exactly as the specification's "all but the last block".
#[derive(Clone)]
pub struct Model {
    h: [u32; 8],
    pend: [u8; 64],
    n: usize,
    t: u64,
    /// Bytes fed by the user (the key block is not one of them).
    pub len: u64,
    pub last_node: bool,
    pub out: usize,
}

impl Model {
    pub fn new(p: &PSpec) -> Model {
        let mut m = Model::bare(p);
        if !p.key.is_empty() {
            let mut kb = [0u8; 64];
            kb[..p.key.len()].copy_from_slice(&p.key);
            m.absorb(&kb);
        }
        m
    }

    /// The state set up from the parameter block, without the key block.
    fn bare(p: &PSpec) -> Model {
        // The 32-byte parameter block, laid out byte by byte as in the BLAKE2 document, section 2.8.
        let mut b = [0u8; 32];
        b[0] = p.hash_length as u8;
        b[1] = p.key.len() as u8;
        b[2] = p.fanout;
        b[3] = p.max_depth;
        b[4..8].copy_from_slice(&p.max_leaf_length.to_le_bytes());
        b[8..14].copy_from_slice(&p.node_offset.to_le_bytes()[..6]);
        b[14] = p.node_depth;
        b[15] = p.inner_hash_length as u8;
        b[16..16 + p.salt.len()].copy_from_slice(&p.salt);
        b[24..24 + p.personal.len()].copy_from_slice(&p.personal);
        let mut h = IV;
        for i in 0..8 {
            h[i] ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        Model { h, pend: [0; 64], n: 0, t: 0, len: 0, last_node: p.last_node, out: p.hash_length }
    }

    fn absorb(&mut self, mut d: &[u8]) {
        while !d.is_empty() {
            if self.n == 64 {
                self.t += 64;
                compress(&mut self.h, &self.pend, self.t, false, false);
                self.n = 0;
            }
            let k = d.len().min(64 - self.n);
            self.pend[self.n..self.n + k].copy_from_slice(&d[..k]);
            self.n += k;
            d = &d[k..];
        }
    }

    pub fn update(&mut self, d: &[u8]) -> &mut Model {
        self.len += d.len() as u64;
        self.absorb(d);
        self
    }

    pub fn digest_full(&self) -> [u8; 32] {
        let mut h = self.h;
        let mut block = [0u8; 64];
        block[..self.n].copy_from_slice(&self.pend[..self.n]);
        compress(&mut h, &block, self.t + self.n as u64, true, self.last_node);
        let mut out = [0u8; 32];
        for i in 0..8 {
            out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
        }
        out
    }

    pub fn digest(&self) -> Vec<u8> {
        self.digest_full()[..self.out].to_vec()
    }

    /// The chaining value: everything compressed so far.
    pub fn chain(&self) -> [u32; 8] {
        self.h
    }

    /// The model `len` user bytes into a stream (a positive multiple of 64), from the chaining value
    /// there and the last, still uncompressed, block.
    pub fn resume(p: &PSpec, h: [u32; 8], len: u64, last_block: &[u8]) -> Model {
        let mut m = Model::bare(p);
        m.h = h;
        m.pend.copy_from_slice(last_block);
        m.n = 64;
        m.t = len - 64 + if p.key.is_empty() { 0 } else { 64 };
        m.len = len;
        m
    }

    /// How many bytes wait for a successor (0..=64): only used to aim inputs at boundaries.
    pub fn pending(&self) -> usize {
        self.n
    }
}

pub fn digest(p: &PSpec, data: &[u8]) -> Vec<u8> {
    let mut m = Model::new(p);
    m.update(data);
    m.digest()
}

/// BLAKE2sp: eight leaves take 64-byte chunks in turn; the root hashes their 32-byte digests. All
/// nodes carry hash length and key length, only the leaves hash the key block (blake2sp-ref.c).
#[derive(Clone)]
pub struct ModelSp {
    pub leaves: Vec<Model>,
    root: Model,
    pub len: u64,
}

impl ModelSp {
    pub fn leaf_spec(hash_length: usize, key: &[u8], i: u64) -> PSpec {
        let mut p = PSpec::default();
        p.hash_length = hash_length;
        p.key = key.to_vec();
        p.fanout = 8;
        p.max_depth = 2;
        p.node_offset = i;
        p.inner_hash_length = 32;
        p.last_node = i == 7;
        p
    }

    pub fn new(hash_length: usize, key: &[u8]) -> ModelSp {
        let leaves = (0..8)
            .map(|i| {
                let mut m = Model::new(&ModelSp::leaf_spec(hash_length, key, i));
                m.out = 32;
                m
            })
            .collect();
        let mut p = ModelSp::leaf_spec(hash_length, key, 0);
        p.node_depth = 1;
        p.last_node = true;
        ModelSp { leaves, root: Model::bare(&p), len: 0 }
    }

    /// As `Model::resume`: `len` is a multiple of 512, `last` the last 512 bytes.
    pub fn resume(hash_length: usize, key: &[u8], h: &[[u32; 8]; 8], len: u64, last: &[u8]) -> ModelSp {
        let mut m = ModelSp::new(hash_length, key);
        for i in 0..8 {
            let p = ModelSp::leaf_spec(hash_length, key, i as u64);
            m.leaves[i] = Model::resume(&p, h[i], len / 8, &last[64 * i..64 * i + 64]);
            m.leaves[i].out = 32;
        }
        m.len = len;
        m
    }

    pub fn update(&mut self, mut d: &[u8]) -> &mut ModelSp {
        while !d.is_empty() {
            let leaf = (self.len / 64 % 8) as usize;
            let k = d.len().min(64 - (self.len % 64) as usize);
            self.leaves[leaf].update(&d[..k]);
            self.len += k as u64;
            d = &d[k..];
        }
        self
    }

    pub fn digest(&self) -> Vec<u8> {
        let mut root = self.root.clone();
        for l in &self.leaves {
            root.update(&l.digest());
        }
        root.digest()
    }
}
