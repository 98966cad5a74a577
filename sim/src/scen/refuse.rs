//! C11: refused calls. Arguments just beyond and far beyond each limit are thrown in between
//! ordinary work; each must be refused by a panic the caller can survive, and afterwards the object
//! and every bystander must be as if the call had never been made. Arguments inside are accepted.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_bytes_exact, gen_len, gen_params, gen_sp_params, PSpec};
use b2::blake2sp;
use blake2s_simd as b2;

/// A length beyond `limit`: just beyond, around the 8/16/32-bit wraps (also wrapping back inside).
fn too_long(c: &mut Ctx, limit: usize, slice: bool) -> usize {
    let n = match c.weighted(&[4, 3, 3, 2, 2, 1]) {
        0 => limit + 1,
        1 => limit + 1 + c.pick(40) as usize,
        2 => 256 + c.pick(limit as u64 + 2) as usize,
        3 => 65536 + c.pick(limit as u64 + 2) as usize,
        4 => huge(slice) + c.pick(limit as u64 + 2) as usize,
        _ => {
            if slice {
                512 + c.pick(limit as u64 + 1) as usize
            } else {
                [usize::MAX, usize::MAX / 2 + 1, 1 << 31][c.pick(3) as usize]
            }
        }
    };
    n
}

#[cfg(all(unix, not(miri), target_pointer_width = "64"))]
fn huge(_slice: bool) -> usize {
    1 << 32
}
#[cfg(not(all(unix, not(miri), target_pointer_width = "64")))]
fn huge(slice: bool) -> usize {
    if slice {
        131072
    } else {
        1 << 24
    }
}

/// A slice of any length up to 4 GiB and a little, costing nothing: untouched zero pages.
#[cfg(all(unix, not(miri), target_pointer_width = "64"))]
fn zeros(n: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static MAP: OnceLock<usize> = OnceLock::new();
    const LEN: usize = (1 << 32) + (1 << 20);
    let p = *MAP.get_or_init(|| {
        use crate::sys::*;
        map(LEN, PROT_READ, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE) as usize
    });
    assert!(n <= LEN);
    unsafe { std::slice::from_raw_parts(p as *const u8, n) }
}
#[cfg(not(all(unix, not(miri), target_pointer_width = "64")))]
fn zeros(n: usize) -> &'static [u8] {
    Box::leak(vec![0u8; n].into_boxed_slice())
}

fn must_refuse<T>(c: &mut Ctx, what: &str, arg: String, r: Result<T, String>) -> R {
    c.fault("refused call");
    match r {
        Err(_) => Ok(()),
        Ok(_) => fail(&format!("accepted: {}", what), format!("{}({}) was accepted", what, arg)),
    }
}

/// `p` must behave exactly as `spec`, freshly built.
fn untouched(c: &mut Ctx, p: &b2::Params, spec: &PSpec, after: &str) -> R {
    let d = bytes(7, 130);
    let got = c.call("to_state", || p.to_state().update(&d).finalize())?;
    let want = c.call("to_state", || spec.real().to_state().update(&d).finalize())?;
    c.observe(got.as_bytes());
    if got.as_bytes() != want.as_bytes() {
        return fail(
            &format!("trace of refused {}", after),
            format!("after {}: {:?} now gives {}, without it {}", after, spec, hex(got.as_bytes()), hex(want.as_bytes())),
        );
    }
    Ok(())
}

fn untouched_sp(c: &mut Ctx, p: &blake2sp::Params, spec: &PSpec, after: &str) -> R {
    let d = bytes(7, 1100);
    let got = c.call("to_state", || (p.to_state().update(&d).finalize(), format!("{:?}", p)))?;
    let q = spec.real_sp();
    let want = c.call("to_state", || (q.to_state().update(&d).finalize(), format!("{:?}", q)))?;
    c.observe(got.0.as_bytes());
    if got.0.as_bytes() != want.0.as_bytes() || got.1 != want.1 {
        return fail(
            &format!("trace of refused {}", after),
            format!("after {}: blake2sp set now gives {} {}, without it {} {}", after, hex(got.0.as_bytes()), got.1, hex(want.0.as_bytes()), want.1),
        );
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> R {
    let mut spec = gen_params(c, true);
    let mut p = c.call("Params", || spec.real())?;
    let mut sp_spec = gen_sp_params(c);
    let mut q = c.call("blake2sp::Params", || sp_spec.real_sp())?;
    ev!(c, "parameters {:?}; blake2sp hash_length {} key {}", spec, sp_spec.hash_length, sp_spec.key.len());
    // A bystander in the middle of its stream, and its twin that sees no refusals.
    let bp = gen_params(c, true);
    let mut by = c.call("to_state", || bp.real().to_state())?;
    let mut twin = c.call("to_state", || bp.real().to_state())?;
    let mut blen = 0u64;
    let goal = c.goal(8, 30);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let op = c.weighted(&[2, 2, 2, 2, 1, 1, 2, 2, 2, 4, 4, 2, 3, 5]);
        match op {
            0 => {
                let n = match c.weighted(&[1, 3]) {
                    0 => 0,
                    _ => too_long(c, 32, false),
                };
                ev!(c, "hash_length({})", n);
                let r = c.try_call(|| drop(p.hash_length(n)));
                must_refuse(c, "Params::hash_length", n.to_string(), r)?;
                untouched(c, &p, &spec, "hash_length")?;
            }
            1 => {
                let n = too_long(c, 32, true);
                let ones = vec![0xffu8; if n < 100_000 { n } else { 0 }];
                let arg = if ones.is_empty() { zeros(n) } else { &ones };
                ev!(c, "key({} bytes)", n);
                let r = c.try_call(|| drop(p.key(arg)));
                must_refuse(c, "Params::key", format!("{} bytes", n), r)?;
                untouched(c, &p, &spec, "key")?;
            }
            2 => {
                let n = too_long(c, 8, true);
                let ones = vec![0xffu8; if n < 100_000 { n } else { 0 }];
                let arg = if ones.is_empty() { zeros(n) } else { &ones };
                ev!(c, "salt({} bytes)", n);
                let r = c.try_call(|| drop(p.salt(arg)));
                must_refuse(c, "Params::salt", format!("{} bytes", n), r)?;
                untouched(c, &p, &spec, "salt")?;
            }
            3 => {
                let n = too_long(c, 8, true);
                let ones = vec![0xffu8; if n < 100_000 { n } else { 0 }];
                let arg = if ones.is_empty() { zeros(n) } else { &ones };
                ev!(c, "personal({} bytes)", n);
                let r = c.try_call(|| drop(p.personal(arg)));
                must_refuse(c, "Params::personal", format!("{} bytes", n), r)?;
                untouched(c, &p, &spec, "personal")?;
            }
            4 => {
                let n = too_long(c, 32, false);
                ev!(c, "inner_hash_length({})", n);
                let r = c.try_call(|| drop(p.inner_hash_length(n)));
                must_refuse(c, "Params::inner_hash_length", n.to_string(), r)?;
                untouched(c, &p, &spec, "inner_hash_length")?;
            }
            5 => {
                ev!(c, "max_depth(0)");
                let r = c.try_call(|| drop(p.max_depth(0)));
                must_refuse(c, "Params::max_depth", "0".into(), r)?;
                untouched(c, &p, &spec, "max_depth")?;
            }
            6 => {
                let n = match c.weighted(&[3, 3, 1, 1]) {
                    0 => 1u64 << 48,
                    1 => (1u64 << 48) + c.pick(1 << 20),
                    2 => u64::MAX,
                    _ => 1u64 << (49 + c.pick(15)),
                };
                ev!(c, "node_offset({})", n);
                let r = c.try_call(|| drop(p.node_offset(n)));
                must_refuse(c, "Params::node_offset", n.to_string(), r)?;
                untouched(c, &p, &spec, "node_offset")?;
            }
            7 => {
                let n = match c.weighted(&[1, 3]) {
                    0 => 0,
                    _ => too_long(c, 32, false),
                };
                ev!(c, "blake2sp hash_length({})", n);
                let r = c.try_call(|| drop(q.hash_length(n)));
                must_refuse(c, "blake2sp::Params::hash_length", n.to_string(), r)?;
                untouched_sp(c, &q, &sp_spec, "blake2sp hash_length")?;
            }
            8 => {
                let n = too_long(c, 32, true);
                let ones = vec![0xffu8; if n < 100_000 { n } else { 0 }];
                let arg = if ones.is_empty() { zeros(n) } else { &ones };
                ev!(c, "blake2sp key({} bytes)", n);
                let r = c.try_call(|| drop(q.key(arg)));
                must_refuse(c, "blake2sp::Params::key", format!("{} bytes", n), r)?;
                untouched_sp(c, &q, &sp_spec, "blake2sp key")?;
            }
            9 | 10 => {
                // An exact batch whose shape is wrong in one place, or throughout.
                let lanes = if op == 9 { 4 } else { 8 };
                let name = if op == 9 { "hash4_exact" } else { "hash8_exact" };
                let (kind, lens) = bad_lens(c, lanes);
                let store = data(c, lens.iter().max().unwrap() + 8);
                let ins: Vec<&[u8]> = lens.iter().enumerate().map(|(l, &n)| &store[l..l + n]).collect();
                ev!(c, "{} with lengths {:?}", name, lens);
                c.sig(&[op as u64, kind, lens[0] as u64, lens[1] as u64]);
                let r = c.try_call(|| {
                    if op == 9 {
                        hash4_exact(&p, &ins).to_vec()
                    } else {
                        hash8_exact(&p, &ins).to_vec()
                    }
                });
                must_refuse(c, name, format!("lengths {:?}", lens), r)?;
                untouched(c, &p, &spec, name)?;
            }
            11 => {
                // hash8 with keyed parameters somewhere: a refusal or the right answers.
                let keyed = c.pick(8) as usize;
                let mut ks = PSpec::default();
                let kn = 1 + c.pick(32) as usize;
                ks.key = gen_bytes_exact(c, kn);
                let (kp, up) = (ks.real(), b2::Params::new());
                let n = [0, 1, 64, 65, 128, 200][c.pick(6) as usize];
                let d = data(c, n);
                let ps: Vec<&b2::Params> = (0..8).map(|l| if l == keyed { &kp } else { &up }).collect();
                let ins: Vec<&[u8]> = (0..8).map(|_| &d[..]).collect();
                ev!(c, "hash8 with position {} keyed, {} bytes each", keyed, n);
                if let Ok(hs) = c.try_call(|| hash8(&ps, &ins)) {
                    for l in 0..8 {
                        let want = c.call("to_state", || ps[l].to_state().update(&d).finalize())?;
                        if hs[l].as_bytes() != want.as_bytes() {
                            return fail("accepted: hash8", format!("keyed hash8 was accepted and position {} is wrong", l));
                        }
                    }
                } else {
                    c.fault("refused call");
                }
            }
            12 => {
                // Bystander traffic.
                let n = gen_len(c, blen, 0);
                let d = data(c, n);
                ev!(c, "bystander: update({})", n);
                for s in [&mut by, &mut twin].iter_mut() {
                    c.call("State::update", || {
                        s.update(&d);
                    })?;
                }
                blen += n as u64;
            }
            _ => {
                // Arguments inside the limits must be accepted, the extremes above all.
                let lo = c.chance(1, 2);
                let (n32, n8) = if lo { (1 + c.pick(32) as usize, c.pick(9) as usize) } else { (32, 8) };
                let r = match c.pick(11) {
                    0 => {
                        spec.hash_length = if lo { 1 } else { n32 };
                        let n = spec.hash_length;
                        c.try_call(|| drop(p.hash_length(n)))
                    }
                    1 => {
                        spec.key = gen_bytes_exact(c, if lo { 0 } else { n32 });
                        let v = &spec.key;
                        c.try_call(|| drop(p.key(v)))
                    }
                    2 => {
                        spec.salt = gen_bytes_exact(c, n8);
                        let v = &spec.salt;
                        c.try_call(|| drop(p.salt(v)))
                    }
                    3 => {
                        spec.personal = gen_bytes_exact(c, n8);
                        let v = &spec.personal;
                        c.try_call(|| drop(p.personal(v)))
                    }
                    4 => {
                        spec.inner_hash_length = if lo { 0 } else { 32 };
                        let n = spec.inner_hash_length;
                        c.try_call(|| drop(p.inner_hash_length(n)))
                    }
                    5 => {
                        spec.max_depth = if lo { 1 } else { 255 };
                        let n = spec.max_depth;
                        c.try_call(|| drop(p.max_depth(n)))
                    }
                    6 => {
                        spec.node_offset = if lo { 0 } else { (1 << 48) - 1 };
                        let n = spec.node_offset;
                        c.try_call(|| drop(p.node_offset(n)))
                    }
                    7 => {
                        spec.fanout = if lo { 0 } else { 255 };
                        spec.node_depth = if lo { 255 } else { 0 };
                        spec.max_leaf_length = if lo { u32::MAX } else { 0 };
                        let (a, b, m) = (spec.fanout, spec.node_depth, spec.max_leaf_length);
                        c.try_call(|| drop(p.fanout(a).node_depth(b).max_leaf_length(m)))
                    }
                    8 => {
                        sp_spec.hash_length = if lo { 1 } else { n32 };
                        let n = sp_spec.hash_length;
                        c.try_call(|| drop(q.hash_length(n)))
                    }
                    9 => {
                        sp_spec.key = gen_bytes_exact(c, if lo { 0 } else { n32 });
                        let v = &sp_spec.key;
                        c.try_call(|| drop(q.key(v)))
                    }
                    _ => {
                        let d = bytes(3, 64 * 8);
                        let n = 64 * (1 + c.pick(8) as usize);
                        let ins: Vec<&[u8]> = (0..8).map(|_| &d[..n]).collect();
                        let r = &p;
                        c.try_call(|| {
                            hash4_exact(r, &ins);
                            hash8_exact(r, &ins);
                        })
                    }
                };
                ev!(c, "accepted arguments: {:?} / blake2sp {} {}", spec, sp_spec.hash_length, sp_spec.key.len());
                if let Err(m) = r {
                    return fail("refused a valid argument", format!("{:?} / blake2sp {:?}: {}", spec, sp_spec, m));
                }
            }
        }
    }
    let (x, y) = (c.call("State::count", || by.count())?, c.call("State::count", || twin.count())?);
    let (g, w) = (c.call("State::finalize", || by.finalize())?, c.call("State::finalize", || twin.finalize())?);
    if x != y || g.as_bytes() != w.as_bytes() {
        return fail("trace in a bystander", format!("count {} digest {}, without refusals {} {}", x, hex(g.as_bytes()), y, hex(w.as_bytes())));
    }
    untouched(c, &p, &spec, "everything")?;
    untouched_sp(c, &q, &sp_spec, "everything")
}
