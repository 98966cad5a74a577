//! Programs of library calls for several threads: what C10's schedulers (native and Miri) run.

use super::common::*;
use crate::ctx::Ctx;
use crate::params::{gen_params, PSpec};
use crate::steps_plan::Decision;
use b2::blake2sp;
use blake2s_simd as b2;

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub kind: usize,
    /// Lane or shared parameter set, data offset, data length.
    pub a: usize,
    pub at: usize,
    pub len: usize,
}

pub const KINDS: [&str; 22] = [
    "update", "finalize", "update8", "finalize8", "blake2sp update", "blake2sp finalize", "blake2s", "blake2sp::blake2sp",
    "hash4_exact", "hash8_exact", "hash8", "new hasher from shared parameters", "shared parameters cloned", "shared hasher read",
    "count and debug text", "hasher replaced by its clone",
    "write through io::Write", "digest compared and rendered", "new hasher with key and node flags", "blake2sp hasher from shared parameters",
    "set_last_node", "hasher made",
];

/// Instructions in a typical short call (shipped build).
const LENGTH: [u64; 22] = [
    2000, 740, 8000, 3500, 3000, 10400, 3000, 14000, 5000, 5000, 12000, 6000, 3000, 3000, 5400, 24, 3000, 5600, 6000, 46000, 740, 150,
];

pub struct Plan {
    pub threads: usize,
    pub specs: Vec<PSpec>,
    pub keyless: Vec<usize>,
    pub input: Vec<u8>,
    /// owner[phase][group]: the thread that has the group.
    pub owner: Vec<Vec<usize>>,
    /// ops[phase][group].
    pub ops: Vec<Vec<Vec<Op>>>,
    pub decisions: Vec<Decision>,
    /// Whether the hashers are made outside the scheduler's control.
    pub quiet_start: bool,
}

/// Eight hashers, a BLAKE2sp hasher and a private parameter set.
pub struct Group {
    pub s: Vec<b2::State>,
    pub sp: blake2sp::State,
}

/// What all threads share.
pub struct Shared {
    pub params: Vec<b2::Params>,
    pub sp_params: blake2sp::Params,
    pub idle: b2::State,
}

/// The harness moves and shares these whether or not the types say they may be; whether they say so
/// is checked on its own (`marks`).
pub struct Lend<T>(pub T);
unsafe impl<T> Send for Lend<T> {}
unsafe impl<T> Sync for Lend<T> {}

pub const SLOT: usize = 8 * 33;

fn small(c: &mut Ctx) -> usize {
    match c.weighted(&[2, 3, 3, 1]) {
        0 => c.pick(3) as usize,
        1 => 64 * c.pick(4) as usize + [0, 1, 63][c.pick(3) as usize],
        2 => c.pick(200) as usize,
        _ => c.pick(1100) as usize,
    }
}

fn some_params(c: &mut Ctx) -> (Vec<PSpec>, Vec<usize>) {
    let mut specs = vec![];
    for i in 0..1 + c.pick(3) {
        let mut p = gen_params(c, true);
        for _ in 0..3 {
            if i == 0 && p == PSpec::default() {
                p = gen_params(c, true);
            }
        }
        specs.push(p);
    }
    specs.push(PSpec::default());
    let keyless = (0..specs.len()).filter(|&i| specs[i].key.is_empty()).collect();
    (specs, keyless)
}

/// A few threads meet in one kind of call: one is stopped somewhere inside it, and another makes the
/// whole of its own meanwhile.
fn meeting(c: &mut Ctx, tiny: bool) -> Plan {
    let threads = 2 + c.weighted(&[5, 1]);
    let (specs, keyless) = some_params(c);
    let input = bytes(c.pick(1 << 20), 4096);
    // Making hashers is where libraries like to keep something for the next time.
    let making = [11, 21, 18, 19];
    let x = if c.chance(1, 4) { making[c.pick(4) as usize] } else { c.pick(KINDS.len() as u64) as usize };
    let y = c.pick(KINDS.len() as u64) as usize;
    // Few parameter sets and hashers, so that calls repeat.
    let few = if c.chance(1, 2) { 2 } else { 8 };
    let long = !tiny && c.chance(1, 4);
    let mut per = vec![];
    for t in 0..threads {
        let goal = 1 + c.weighted(&[4, 4, 2]) as u64;
        let mut v = vec![];
        let mut k = 0;
        while c.more(k, goal) && v.len() < 4 {
            k += 1;
            let kind = if c.chance(1, 6) { y } else { x };
            let len = if long { c.pick(2500) as usize } else if tiny { small(c) % 130 } else { small(c) };
            // Each thread mostly has its own.
            let a = if few == 2 && c.chance(3, 4) { t } else { c.pick(few) as usize };
            v.push(Op { kind, a, at: c.pick(64) as usize, len });
        }
        per.push(v);
    }
    let mut decisions = vec![];
    let quiet_start = c.chance(3, 4);
    for _ in 0..1 + c.weighted(&[5, 3, 2, 1]) {
        let calls = c.weighted(&[5, 3, 1]) as u8;
        // How long the calls are is known roughly.
        let size = (LENGTH[x] * if long { 8 } else { 1 }).min(12000);
        let steps = if c.chance(1, 2) {
            1 + c.pick(size * if cfg!(feature = "std") { 1 } else { 3 }) as u32
        } else {
            let bits = c.pick(if long { 14 } else { 12 }) as u32;
            1 + (1 << bits) + c.pick(1 << bits) as u32
        };
        decisions.push(Decision { calls, steps, to: c.pick(4) as u8 });
        if c.chance(3, 4) {
            decisions.push(Decision { calls: 0, steps: 0, to: c.pick(4) as u8 });
        }
    }
    Plan { threads, specs, keyless, input, owner: vec![(0..threads).collect()], ops: vec![per], decisions, quiet_start }
}

/// Two threads make half of all kinds of call, each in its own order.
fn everything(c: &mut Ctx) -> Plan {
    let (specs, keyless) = some_params(c);
    let input = bytes(c.pick(1 << 20), 4096);
    let kinds = c.distinct(10, KINDS.len());
    let mut per = vec![];
    for _ in 0..2 {
        let order = c.distinct(10, 10);
        let mut v = vec![];
        let mut k = 0;
        while c.more(k, 10) && v.len() < 10 {
            let kind = kinds[order[k as usize]];
            k += 1;
            v.push(Op { kind, a: c.pick(8) as usize, at: c.pick(64) as usize, len: small(c) % 130 });
        }
        per.push(v);
    }
    Plan { threads: 2, specs, keyless, input, owner: vec![vec![0, 1]], ops: vec![per], decisions: vec![], quiet_start: true }
}

/// `tiny`: for an interpreter.
pub fn plan(c: &mut Ctx, tiny: bool) -> Plan {
    if tiny && c.chance(1, 3) {
        return everything(c);
    }
    if c.chance(4, 5) {
        return meeting(c, tiny);
    }
    let threads = 2 + c.pick(2) as usize;
    let (specs, keyless) = some_params(c);
    let input = bytes(c.pick(1 << 20), 4096);
    let phases = 1 + c.pick(if tiny { 2 } else { 3 }) as usize;
    let mut owner = vec![];
    let mut ops = vec![];
    // Some runs have all threads favour the same kinds of call, so that they meet inside one.
    let theme = if c.chance(1, 2) { Some((c.pick(22) as usize, c.pick(22) as usize)) } else { None };
    for _ in 0..phases {
        owner.push(c.distinct(threads, threads));
        let mut per = vec![];
        for _ in 0..threads {
            let mut v = vec![];
            // Swarm: some runs keep to few kinds of call.
            let goal = 1 + c.pick(if tiny { 2 } else { 5 });
            let bias = if c.chance(1, 3) { Some(c.pick(22) as usize) } else { None };
            let mut k = 0;
            while c.more(k, goal) && v.len() < 8 {
                k += 1;
                let kind = match (bias, theme) {
                    (_, Some((x, y))) if c.chance(3, 4) => if c.chance(2, 3) { x } else { y },
                    (Some(b), _) if c.chance(2, 3) => b,
                    _ => c.weighted(&[6, 4, 3, 2, 4, 2, 3, 2, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1, 2, 2, 1, 1]),
                };
                let len = if tiny { small(c) % 130 } else { small(c) };
                v.push(Op { kind, a: c.pick(8) as usize, at: c.pick(64) as usize, len });
            }
            per.push(v);
        }
        ops.push(per);
    }
    let mut decisions = vec![];
    for _ in 0..c.pick(if tiny { 24 } else { 16 }) {
        let steps = match c.weighted(&[2, 3, 4, 2]) {
            0 => 0,
            1 => 1 + c.pick(60) as u32,
            2 => 1 + c.pick(600) as u32,
            _ => 1 + c.pick(3000) as u32,
        };
        decisions.push(Decision { calls: 0, steps, to: c.pick(8) as u8 });
    }
    Plan { threads, specs, keyless, input, owner, ops, decisions, quiet_start: false }
}

pub fn shared(p: &Plan) -> Shared {
    let mut sp_params = blake2sp::Params::new();
    sp_params.hash_length(29).key(b"shared");
    let mut idle = p.specs[0].real().to_state();
    idle.update(&p.input[..100]);
    Shared { params: p.specs.iter().map(|s| s.real()).collect(), sp_params, idle }
}

pub fn group(p: &Plan, g: usize) -> Group {
    Group {
        s: (0..8).map(|i| p.specs[(g + i) % p.specs.len()].real().to_state()).collect(),
        sp: if g % 2 == 0 { blake2sp::State::new() } else { blake2sp::Params::new().key(b"k").to_state() },
    }
}

struct Text {
    b: [u8; 2000],
    n: usize,
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = s.len().min(self.b.len() - self.n);
        self.b[self.n..self.n + k].copy_from_slice(&s.as_bytes()[..k]);
        self.n += k;
        Ok(())
    }
}

#[cfg(feature = "std")]
fn put<W: std::io::Write>(w: &mut W, data: &[u8]) -> u64 {
    let n = w.write(data).unwrap_or(usize::MAX);
    let _ = w.write_all(&data[data.len() / 2..]);
    let _ = w.flush();
    n as u64
}
#[cfg(not(feature = "std"))]
fn put<W>(_: &mut W, _: &[u8]) -> u64 {
    0
}

/// One call into the library, given to `run` to perform; its results go to `out`.
pub fn perform(p: &Plan, sh: &Shared, g: &mut Group, op: Op, out: &mut [u8], run: &mut dyn FnMut(&mut dyn FnMut())) {
    let data = &p.input[op.at..op.at + op.len];
    let lens: [usize; 8] = core::array::from_fn(|i| if op.a == i { op.len / 3 } else { op.len });
    let blocks = (op.len / 64).max(1).min(if op.len % 2 == 0 { 3 } else { 12 }) * 64;
    let exact: [&[u8]; 8] = core::array::from_fn(|i| &p.input[op.at + 70 * i..op.at + 70 * i + blocks]);
    let inputs: [&[u8]; 8] = core::array::from_fn(|i| &p.input[op.at + 90 * i..op.at + 90 * i + lens[i]]);
    let params = &sh.params[op.a % sh.params.len()];
    let order = [0, 1, 2, 3, 4, 5, 6, 7];
    let mut hashes: [Option<b2::Hash>; 8] = [None; 8];
    let mut spare: Option<b2::State> = None;
    let mut text = Text { b: [0; 2000], n: 0 };
    let mut count = 0u64;
    match op.kind {
        0 => {
            let s = &mut g.s[op.a];
            run(&mut || {
                s.update(data);
            })
        }
        1 => {
            let s = &mut g.s[op.a];
            run(&mut || hashes[0] = Some(s.finalize()))
        }
        2 => {
            let s = &mut g.s;
            run(&mut || update8(s, &order, &inputs))
        }
        3 => {
            let s = &mut g.s;
            run(&mut || hashes = finalize8(s, &order).map(Some))
        }
        4 => {
            let s = &mut g.sp;
            let d = if op.a > 4 && op.len > 130 { &p.input[op.at..op.at + 1000 + op.len] } else { data };
            run(&mut || {
                s.update(d);
            })
        }
        5 => {
            let s = &mut g.sp;
            run(&mut || hashes[0] = Some(s.finalize()))
        }
        6 => run(&mut || hashes[0] = Some(b2::blake2s(data))),
        7 => run(&mut || hashes[0] = Some(blake2sp::blake2sp(data))),
        8 => run(&mut || {
            for (o, h) in hashes.iter_mut().zip(hash4_exact(params, &exact).iter()) {
                *o = Some(*h);
            }
        }),
        9 => run(&mut || hashes = hash8_exact(params, &exact).map(Some)),
        10 => {
            let q = &sh.params[p.keyless[op.a % p.keyless.len()]];
            run(&mut || hashes = hash8(&[q; 8], &inputs).map(Some))
        }
        11 => {
            if op.len % 2 == 0 {
                run(&mut || hashes[0] = Some(params.to_state().update(data).finalize()))
            } else {
                let q = &sh.sp_params;
                run(&mut || hashes[0] = Some(q.to_state().update(data).finalize()))
            }
        }
        12 => run(&mut || {
            let mut q = params.clone();
            q.hash_length(1 + op.len % 32).node_offset(op.at as u64);
            hashes[0] = Some(q.to_state().update(data).finalize());
        }),
        13 => {
            let idle = &sh.idle;
            run(&mut || {
                count = idle.count();
                let mut k = idle.clone();
                hashes[0] = Some(k.update(data).finalize());
            })
        }
        14 => {
            use std::fmt::Write;
            let (s, sp) = (&g.s[op.a], &g.sp);
            run(&mut || {
                count = s.count() * 1000 + sp.count();
                let _ = write!(text, "{:?} {:?}", s, sp);
            })
        }
        15 => {
            let s = &g.s[op.a];
            run(&mut || spare = Some(s.clone()))
        }
        16 => {
            let (s, sp) = (&mut g.s[op.a], &mut g.sp);
            if op.len % 3 == 0 {
                run(&mut || count = put(sp, data))
            } else {
                run(&mut || count = put(s, data))
            }
        }
        17 => {
            let (l, r) = g.s.split_at_mut(4);
            let (s, t) = (&mut l[op.a % 4], &mut r[op.a / 2]);
            run(&mut || {
                use std::fmt::Write;
                let (x, y) = (s.finalize(), t.finalize());
                let _ = write!(text, "{} {:?}", x.to_hex(), y);
                let z = x;
                count = (x == y) as u64 + 2 * (x == z) as u64 + 4 * (x == *y.as_bytes()) as u64;
                hashes[0] = Some(x);
            })
        }
        18 => run(&mut || {
            let mut q = b2::Params::new();
            q.key(&data[..data.len().min(32)]).node_depth(op.a as u8).last_node(op.len % 2 == 1).fanout(op.len as u8).salt(b"saltsalt");
            hashes[0] = Some(q.to_state().update(data).finalize());
            hashes[1] = Some(q.to_state().update(&data[..op.len / 2]).update(&data[op.len / 2..]).finalize());
        }),
        19 => {
            let q = &sh.sp_params;
            run(&mut || {
                let mut s = q.to_state();
                s.update(data);
                hashes[1] = Some(s.finalize());
                hashes[0] = Some(s.update(data).finalize());
                hashes[2] = Some(q.clone().hash_length(1 + op.len % 32).to_state().update(data).finalize());
                count = s.count();
            })
        }
        21 => {
            let mut s = None;
            run(&mut || s = Some(params.to_state()));
            hashes[0] = s.map(|mut s| s.update(data).finalize());
        }
        _ => {
            let s = &mut g.s[op.a];
            run(&mut || {
                s.set_last_node(op.len % 2 == 0);
                hashes[0] = Some(s.finalize());
            })
        }
    }
    if let Some(s) = spare {
        g.s[op.a] = s;
    }
    for (i, h) in hashes.iter().enumerate() {
        if let Some(h) = h {
            let b = h.as_bytes();
            out[33 * i] = b.len() as u8;
            out[33 * i + 1..33 * i + 1 + b.len()].copy_from_slice(b);
        }
    }
    if op.kind >= 13 {
        // Where the digests of these kinds do not reach.
        out[100..108].copy_from_slice(&count.to_le_bytes());
        let mut f = crate::rng::Fnv::new();
        f.bytes(&text.b[..text.n]);
        out[108..116].copy_from_slice(&f.0.to_le_bytes());
    }
}

/// After the last phase every hasher gives its digest.
pub fn closing(g: &mut Group, out: &mut [u8]) {
    for i in 0..8 {
        let h = g.s[i].finalize();
        let b = h.as_bytes();
        out[33 * i] = b.len() as u8;
        out[33 * i + 1..33 * i + 1 + b.len()].copy_from_slice(b);
    }
    let h = g.sp.finalize();
    for (o, x) in out[1..33].iter_mut().zip(h.as_bytes()) {
        *o ^= x;
    }
}

/// index[phase][group]: where the results of its calls begin; then the closing slots.
pub fn indices(p: &Plan) -> (Vec<Vec<usize>>, usize) {
    let mut n = 0;
    let mut v = vec![];
    for ph in &p.ops {
        let mut w = vec![];
        for g in ph {
            w.push(n);
            n += g.len();
        }
        v.push(w);
    }
    (v, n)
}

