//! A simulated clock for single calls: how many instructions (natively, under the processor's
//! single-step flag) or basic blocks (on the interpreter, whose clock counts them) a call takes.

#[cfg(miri)]
mod clock {
    /// The interpreter's clock stands still except for the program's own steps.
    pub fn ticks(f: &mut dyn FnMut()) -> Option<u64> {
        let t = std::time::Instant::now();
        f();
        Some(t.elapsed().as_nanos() as u64)
    }
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod clock {
    use std::os::raw::{c_int, c_void};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    static STEPS: AtomicU64 = AtomicU64::new(0);
    /// Beyond this many, the clock stops and the call runs on freely.
    const MOST: u64 = 3_000_000;

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: c_int,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: c_int, act: *const Action, old: *mut Action) -> c_int;
    }
    extern "C" fn trap(_sig: c_int, _info: *mut c_void, ctx: *mut c_void) {
        if STEPS.fetch_add(1, Relaxed) > MOST {
            unsafe { *((ctx as usize + 40 + 17 * 8) as *mut u64) &= !0x100 };
        }
    }
    fn install() {
        let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        unsafe { assert_eq!(sigaction(5, &a, std::ptr::null_mut()), 0) };
    }

    fn count(f: &mut dyn FnMut()) -> u64 {
        STEPS.store(0, Relaxed);
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        f();
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") };
        STEPS.load(Relaxed)
    }

    #[inline(never)]
    pub fn ticks(f: &mut dyn FnMut()) -> Option<u64> {
        static WORKS: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        // Tried in a child, in case single-stepping kills the process here.
        let works = *WORKS.get_or_init(|| {
            crate::sys::in_child(|| {
                install();
                let mut x = 0u64;
                let n = count(&mut || {
                    for i in 0..50 {
                        x = std::hint::black_box(x + i);
                    }
                });
                (n < 50) as i32
            }) == Ok(0)
        });
        if !works {
            return None;
        }
        install();
        Some(count(f))
    }
}

#[cfg(not(any(miri, all(target_os = "linux", target_arch = "x86_64"))))]
mod clock {
    pub fn ticks(f: &mut dyn FnMut()) -> Option<u64> {
        f();
        None
    }
}

pub use clock::ticks;
