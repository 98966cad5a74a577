//! C14: debug text. Two hashers go through histories that differ only in key and data bytes; their
//! debug text must be the same at every instant. The text is also written to sinks that fail or
//! fill up at a chosen point.

use super::common::*;
use crate::ctx::{fail, hex, Ctx, R};
use crate::params::{gen_len, gen_params, gen_sp_params, PSpec};
use b2::blake2sp;
use blake2s_simd as b2;
use std::fmt::{Debug, Write};

/// Debug text of a type that may not implement Debug (BLAKE2s parameter sets do not, today).
macro_rules! maybe_debug {
    ($v:expr, $alt:expr) => {{
        struct Probe<'a, T>(&'a T);
        trait Without {
            fn text(&self, _alt: bool) -> Option<String> {
                None
            }
        }
        impl<'a, T> Without for &Probe<'a, T> {}
        impl<'a, T: Debug> Probe<'a, T> {
            fn text(&self, alt: bool) -> Option<String> {
                Some(if alt { format!("{:#?}", self.0) } else { format!("{:?}", self.0) })
            }
        }
        #[allow(unused_imports)]
        {
            (&Probe(&$v)).text($alt)
        }
    }};
}

fn text(c: &mut Ctx, style: usize, v: &dyn Debug) -> R<String> {
    c.call("Debug::fmt", || match style {
        0 => format!("{:?}", v),
        1 => format!("{:#?}", v),
        2 => format!("{:x?}", v),
        3 => format!("{:#X?}", v),
        4 => format!("{:40?}", v),
        _ => format!("{:<+08.3?}", v),
    })
}

/// A sink that takes `room` bytes, or fails at its `calls`th call.
struct Sink {
    got: String,
    room: usize,
    calls: usize,
    failed: bool,
    after: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if self.calls == 0 {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.calls -= 1;
        let mut k = s.len().min(self.room - self.got.len());
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        self.got.push_str(&s[..k]);
        if k < s.len() {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

fn failing(c: &mut Ctx, what: &str, v: &dyn Debug) -> R {
    let alt = c.chance(1, 2);
    let full = text(c, alt as usize, v)?;
    let by_calls = c.chance(1, 2);
    let mut sink = if by_calls {
        let n = c.pick(24) as usize;
        Sink { got: String::new(), room: usize::MAX, calls: n, failed: false, after: 0 }
    } else {
        let n = c.pick(full.len() as u64 + 2) as usize;
        Sink { got: String::new(), room: n, calls: usize::MAX, failed: false, after: 0 }
    };
    let r = c.call("Debug::fmt", || if alt { write!(sink, "{:#?}", v) } else { write!(sink, "{:?}", v) })?;
    ev!(c, "{} into a failing sink: {:?}, {} of {} bytes taken", what, r, sink.got.len(), full.len());
    if sink.failed {
        c.fault(if by_calls { "text sink failed" } else { "text sink full" });
    }
    let class = format!("failing sink: {}", what);
    if !full.starts_with(&sink.got) {
        return fail(&class, format!("{:?} is not a prefix of {:?}", sink.got, full));
    }
    if sink.failed && r.is_ok() {
        return fail(&class, format!("the sink failed after {:?} but formatting reported success", sink.got));
    }
    if sink.failed && sink.after > 0 {
        return fail(&class, format!("formatting went on after the sink failed at {:?}", sink.got));
    }
    if !sink.failed && (r.is_err() || sink.got != full) {
        return fail(&class, format!("the sink never failed, yet {:?} and {:?} of {:?}", r, sink.got, full));
    }
    Ok(())
}

fn differs(what: &str, a: &str, b: &str) -> R {
    if a != b {
        return fail(&format!("disclosure: {}", what), format!("histories that differ only in secrets print {:?} and {:?}", a, b));
    }
    Ok(())
}

/// Different bytes, same length.
fn secret_pair(c: &mut Ctx, n: usize) -> (Vec<u8>, Vec<u8>) {
    let a = data(c, n);
    let mut b = data(c, n);
    if a == b && n > 0 {
        b[n / 2] ^= 0x55;
    }
    (a, b)
}

pub fn c14(c: &mut Ctx) -> R {
    let p = gen_params(c, true);
    let sp = gen_sp_params(c);
    let other = |c: &mut Ctx, p: &PSpec| {
        let mut q = p.clone();
        let (_, k) = secret_pair(c, p.key.len());
        q.key = k;
        q
    };
    let (q, sq) = (other(c, &p), other(c, &sp));
    ev!(c, "keys of {} and {} bytes, hash lengths {} and {}", p.key.len(), sp.key.len(), p.hash_length, sp.hash_length);
    let (rp, rq) = (p.real(), q.real());
    let (rsp, rsq) = (sp.real_sp(), sq.real_sp());
    let mut a = c.call("to_state", || rp.to_state())?;
    let mut b = c.call("to_state", || rq.to_state())?;
    // A third hasher, fed like `a` but never formatted.
    let mut t = c.call("to_state", || rp.to_state())?;
    let mut sa: blake2sp::State = c.call("to_state", || rsp.to_state())?;
    let mut sb: blake2sp::State = c.call("to_state", || rsq.to_state())?;
    let mut st: blake2sp::State = c.call("to_state", || rsp.to_state())?;
    let (mut len, mut slen) = (0u64, 0u64);
    let goal = c.goal(8, 30);
    let mut k = 0;
    while c.more(k, goal) {
        k += 1;
        let op = c.weighted(&[4, 4, 4, 4, 3, 3, 2, 1, 1, 2]);
        let style = c.pick(6) as usize;
        c.sig(&[op as u64, style as u64, len % 64, slen % 1024 / 16, (p.key.len() > 0) as u64]);
        match op {
            0 => {
                let n = gen_len(c, len, 1);
                let (x, y) = secret_pair(c, n);
                ev!(c, "blake2s: {} bytes", n);
                c.call("State::update", || drop(a.update(&x)))?;
                c.call("State::update", || drop(b.update(&y)))?;
                c.call("State::update", || drop(t.update(&x)))?;
                len += n as u64;
            }
            1 => {
                let (x, y) = (text(c, style, &a)?, text(c, style, &b)?);
                ev!(c, "blake2s debug text: {}", x);
                differs("State", &x, &y)?;
            }
            2 => {
                let n = gen_len(c, slen, 1);
                let (x, y) = secret_pair(c, n);
                ev!(c, "blake2sp: {} bytes", n);
                c.call("blake2sp::State::update", || drop(sa.update(&x)))?;
                c.call("blake2sp::State::update", || drop(sb.update(&y)))?;
                c.call("blake2sp::State::update", || drop(st.update(&x)))?;
                slen += n as u64;
            }
            3 => {
                let (x, y) = (text(c, style, &sa)?, text(c, style, &sb)?);
                ev!(c, "blake2sp debug text: {}", x);
                differs("blake2sp::State", &x, &y)?;
            }
            4 => failing(c, "State", &a)?,
            5 => failing(c, "blake2sp::State", &sa)?,
            6 => {
                let (x, y) = (text(c, style, &rsp)?, text(c, style, &rsq)?);
                ev!(c, "blake2sp parameters: {}", x);
                differs("blake2sp::Params", &x, &y)?;
                let alt = c.chance(1, 2);
                let (x, y) = (maybe_debug!(rp, alt), maybe_debug!(rq, alt));
                if let (Some(x), Some(y)) = (x, y) {
                    c.probe("BLAKE2s Params implement Debug");
                    differs("Params", &x, &y)?;
                }
                let (x, y) = (maybe_debug!(rsp, alt), maybe_debug!(rsq, alt));
                if let (Some(x), Some(y)) = (x, y) {
                    differs("blake2sp::Params", &x, &y)?;
                }
            }
            7 => failing(c, "blake2sp::Params", &rsp)?,
            8 => {
                let on = c.chance(1, 2);
                ev!(c, "set_last_node({})", on);
                for s in [&mut a, &mut b, &mut t].iter_mut() {
                    c.call("State::set_last_node", || drop(s.set_last_node(on)))?;
                }
            }
            _ => {
                // Digests taken in between must not get into the text either.
                ev!(c, "digests taken");
                c.call("State::finalize", || (a.finalize(), b.finalize(), sa.finalize(), sb.finalize()))?;
            }
        }
    }
    let (x, y) = (text(c, 0, &a)?, text(c, 0, &b)?);
    differs("State", &x, &y)?;
    let (x, y) = (text(c, 0, &sa)?, text(c, 0, &sb)?);
    differs("blake2sp::State", &x, &y)?;
    c.observe(x.as_bytes());
    let (g, w) = (c.call("State::finalize", || (a.finalize(), a.count()))?, c.call("State::finalize", || (t.finalize(), t.count()))?);
    if g.0.as_bytes() != w.0.as_bytes() || g.1 != w.1 {
        return fail("formatting changed the hasher", format!("{} {} after formatting, {} {} without", hex(g.0.as_bytes()), g.1, hex(w.0.as_bytes()), w.1));
    }
    let (g, w) = (
        c.call("blake2sp::State::finalize", || (sa.finalize(), sa.count()))?,
        c.call("blake2sp::State::finalize", || (st.finalize(), st.count()))?,
    );
    if g.0.as_bytes() != w.0.as_bytes() || g.1 != w.1 {
        return fail("formatting changed the hasher", format!("blake2sp {} {} after formatting, {} {} without", hex(g.0.as_bytes()), g.1, hex(w.0.as_bytes()), w.1));
    }
    Ok(())
}
