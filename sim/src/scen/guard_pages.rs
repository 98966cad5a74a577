//! Guarded memory on the real machine: unmapped pages, page protection, painted surroundings.

use crate::ctx::{fail, Ctx, R};
use crate::sys::*;
use std::mem::{align_of, size_of};

const PAGE: usize = 4096;
const PAGES: usize = 72;

/// [unmapped][PAGES writable pages][unmapped]
pub struct Arena {
    base: *mut u8,
    ro: bool,
}

impl Arena {
    pub fn new() -> Arena {
        let p = map((PAGES + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANON);
        let a = Arena { base: unsafe { p.add(PAGE) }, ro: true };
        let mut a = a;
        a.writable();
        a
    }
    const LEN: usize = PAGES * PAGE;
    fn writable(&mut self) {
        if self.ro {
            assert_eq!(0, unsafe { mprotect(self.base as *mut _, Arena::LEN, PROT_RW) });
            self.ro = false;
        }
    }
    fn readonly(&mut self) {
        if !self.ro {
            assert_eq!(0, unsafe { mprotect(self.base as *mut _, Arena::LEN, PROT_READ) });
            self.ro = true;
        }
    }
    /// Puts `d` in the arena: flush against the end, against the beginning, or at an offset.
    pub fn place(&mut self, c: &mut Ctx, d: &[u8]) -> &'static [u8] {
        self.writable();
        let at = match c.weighted(&[5, 3, 2]) {
            0 => Arena::LEN - d.len(),
            1 => 0,
            _ => c.pick((Arena::LEN - d.len()).min(200) as u64 + 1) as usize,
        };
        unsafe {
            std::ptr::copy_nonoverlapping(d.as_ptr(), self.base.add(at), d.len());
            self.readonly();
            std::slice::from_raw_parts(self.base.add(at), d.len())
        }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base.sub(PAGE) as *mut _, (PAGES + 2) * PAGE);
        }
    }
}

/// An object at a chosen place, its surroundings painted.
pub struct Boxed<T> {
    a: Arena,
    p: *mut T,
}
const PAINT: u8 = 0xA7;
const MARGIN: usize = 256;

impl<T> Boxed<T> {
    pub fn new(c: &mut Ctx, v: T) -> Boxed<T> {
        let mut a = Arena::new();
        a.writable();
        let (size, al) = (size_of::<T>(), align_of::<T>());
        let at = match c.weighted(&[4, 2, 2]) {
            0 => (Arena::LEN - size) / al * al,
            1 => 0,
            // In between, at the object's own alignment and no more.
            _ => 2048 + al * c.pick(64) as usize,
        };
        unsafe {
            let lo = at.saturating_sub(MARGIN);
            let hi = (at + size + MARGIN).min(Arena::LEN);
            std::ptr::write_bytes(a.base.add(lo), PAINT, hi - lo);
            let p = a.base.add(at) as *mut T;
            std::ptr::write(p, v);
            Boxed { a, p }
        }
    }
    pub fn get(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
    /// For calls that only read: the whole arena is read-only meanwhile.
    pub fn frozen<U>(&mut self, f: impl FnOnce(&T) -> U) -> U {
        self.a.readonly();
        let r = f(unsafe { &*self.p });
        self.a.writable();
        r
    }
    pub fn check(&self, what: &str) -> R {
        let at = self.p as usize - self.a.base as usize;
        let size = size_of::<T>();
        let lo = at.saturating_sub(MARGIN);
        let hi = (at + size + MARGIN).min(Arena::LEN);
        for i in (lo..at).chain(at + size..hi) {
            let v = unsafe { *self.a.base.add(i) };
            if v != PAINT {
                return fail("write outside an object", format!("{}: byte at offset {} of the object became {:#x}", what, i as isize - at as isize, v));
            }
        }
        Ok(())
    }
}
impl<T> Drop for Boxed<T> {
    fn drop(&mut self) {
        self.a.writable();
        unsafe { std::ptr::drop_in_place(self.p) }
    }
}
