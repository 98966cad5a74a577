//! Guarded memory on the interpreter: every input and object is an allocation of its own, exactly as
//! long as it is, at an address the interpreter draws, and any access beyond it is reported.
//! Draws the same choices as `guard_pages`.

use crate::ctx::{Ctx, R};

pub struct Arena {
    held: Vec<*mut [u8]>,
}

impl Arena {
    pub fn new() -> Arena {
        Arena { held: vec![] }
    }
    const LEN: usize = 72 * 4096;
    pub fn place(&mut self, c: &mut Ctx, d: &[u8]) -> &'static [u8] {
        if c.weighted(&[5, 3, 2]) == 2 {
            c.pick((Arena::LEN - d.len()).min(200) as u64 + 1);
        }
        let p = Box::into_raw(d.to_vec().into_boxed_slice());
        self.held.push(p);
        unsafe { &*p }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for &p in &self.held {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

pub struct Boxed<T>(Box<T>);

impl<T> Boxed<T> {
    pub fn new(c: &mut Ctx, v: T) -> Boxed<T> {
        if c.weighted(&[4, 2, 2]) == 2 {
            c.pick(64);
        }
        Boxed(Box::new(v))
    }
    pub fn get(&mut self) -> &mut T {
        &mut self.0
    }
    pub fn frozen<U>(&mut self, f: impl FnOnce(&T) -> U) -> U {
        f(&self.0)
    }
    pub fn check(&self, _: &str) -> R {
        Ok(())
    }
}
