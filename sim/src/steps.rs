//! A deterministic scheduler for real threads. Exactly one thread holds the token; the others wait.
//! Inside a library call the holder runs under the processor's single-step flag, and gives the token
//! up after a given number of instructions, wherever that is. All decisions are made beforehand.

use std::cell::Cell;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

pub const MAX: usize = 8;

use crate::steps_plan::Decision;

pub struct Sched {
    n: usize,
    decisions: Vec<Decision>,
    next: AtomicUsize,
    /// Whole calls made since the last decision was carried out.
    whole: AtomicU32,
    /// Who holds the token.
    token: AtomicU32,
    /// Bit i: thread i has nothing left to do in this phase.
    done: AtomicU32,
    phase: AtomicU32,
    pub inside: AtomicU64,
    pub boundary: AtomicU64,
    /// How often the token holder was found to be blocked by a preempted thread and had to yield.
    pub blocked: AtomicU64,
    /// Instructions stepped: a sign of life.
    ticks: AtomicU64,
    tid: [AtomicU32; MAX],
    /// Waiting for its turn (and not for anything of the library's).
    waiting: [AtomicBool; MAX],
    poked: AtomicBool,
    /// Inside `wait`. The lowest of them watches the holder.
    watching: [AtomicBool; MAX],
    /// Per thread, for the log and the statistics: what it is doing.
    pub doing: [AtomicU32; MAX],
    pub met: [AtomicU64; 64],
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
}

static mut SCHED: *const Sched = std::ptr::null();

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: c_int, act: *const Action, old: *mut Action) -> c_int;
}

const SIGTRAP: c_int = 5;
const SIGUSR1: c_int = 10;
const TF: u64 = 0x100;
/// uc_mcontext.gregs[REG_EFL] on x86-64 Linux.
const EFL: usize = 40 + 17 * 8;

extern "C" fn trap(_sig: c_int, _info: *mut c_void, ctx: *mut c_void) {
    let efl = (ctx as usize + EFL) as *mut u64;
    let left = LEFT.with(|l| {
        let n = l.get().saturating_sub(1);
        l.set(n);
        n
    });
    unsafe {
        let s = &*SCHED;
        if left > 0 {
            s.ticks.fetch_add(1, Relaxed);
            return;
        }
        s.inside.fetch_add(1, SeqCst);
        s.switch(true);
        // The token is back, with the next decision: keep stepping, or run on freely.
        let d = s.current();
        if d.steps == 0 || d.calls > 0 {
            *efl &= !TF;
        } else {
            LEFT.with(|l| l.set(d.steps));
        }
    }
}

/// The holder is told that it gets nowhere: it lets the next thread run, and tries again later.
extern "C" fn poke(_sig: c_int, _info: *mut c_void, _ctx: *mut c_void) {
    unsafe {
        let s = &*SCHED;
        let me = ME.with(|m| m.get());
        if me < MAX && s.token.load(SeqCst) == me as u32 && !s.waiting[me].load(SeqCst) {
            let done = s.done.load(SeqCst);
            let next = (1..s.n).map(|k| (me + k) % s.n).find(|&i| done >> i & 1 == 0);
            if let Some(to) = next {
                s.blocked.fetch_add(1, SeqCst);
                s.poked.store(false, SeqCst);
                s.give(to as u32);
                s.wait(me);
                return;
            }
        }
        s.poked.store(false, SeqCst);
    }
}

pub fn install() {
    let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    let b = Action { handler: poke as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    unsafe {
        assert_eq!(sigaction(SIGTRAP, &a, std::ptr::null_mut()), 0);
        assert_eq!(sigaction(SIGUSR1, &b, std::ptr::null_mut()), 0);
    }
}

/// The state letter of a thread of this process ('S': asleep). No allocation: this also runs in
/// signal handlers.
unsafe fn state_of(tid: u32) -> u8 {
    let mut path = *b"/proc/self/task/..........\0....";
    let mut at = 16;
    let mut div = 1_000_000_000;
    let mut begun = false;
    while div > 0 {
        let digit = (tid / div % 10) as u8;
        if digit > 0 || begun || div == 1 {
            begun = true;
            path[at] = b'0' + digit;
            at += 1;
        }
        div /= 10;
    }
    path[at..at + 6].copy_from_slice(b"/stat\0");
    let fd = crate::sys::syscall(2, path.as_ptr(), 0 as c_long);
    if fd < 0 {
        return b'?';
    }
    let mut buf = [0u8; 128];
    let n = crate::sys::syscall(0, fd, buf.as_mut_ptr(), 127 as c_long);
    crate::sys::syscall(3, fd);
    let text = &buf[..n.max(0) as usize];
    match text.iter().rposition(|&b| b == b')') {
        Some(i) if i + 2 < text.len() => text[i + 2],
        _ => b'?',
    }
}

unsafe fn futex_wait(a: &AtomicU32, val: u32, ms: u64) {
    let ts = [(ms / 1000) as i64, (ms % 1000 * 1_000_000) as i64];
    crate::sys::syscall(202 as c_long, a as *const AtomicU32, 128 as c_long, val as c_long, ts.as_ptr(), 0 as c_long, 0 as c_long);
}
unsafe fn futex_wake(a: &AtomicU32) {
    crate::sys::syscall(202 as c_long, a as *const AtomicU32, 129 as c_long, i32::MAX as c_long, 0 as c_long, 0 as c_long, 0 as c_long);
}

impl Sched {
    pub fn new(n: usize, decisions: Vec<Decision>) -> Box<Sched> {
        Box::new(Sched {
            n,
            decisions,
            next: AtomicUsize::new(0),
            whole: AtomicU32::new(0),
            token: AtomicU32::new(0),
            done: AtomicU32::new(0),
            phase: AtomicU32::new(0),
            inside: AtomicU64::new(0),
            boundary: AtomicU64::new(0),
            blocked: AtomicU64::new(0),
            ticks: AtomicU64::new(0),
            tid: Default::default(),
            waiting: core::array::from_fn(|_| AtomicBool::new(true)),
            poked: AtomicBool::new(false),
            watching: Default::default(),
            doing: Default::default(),
            met: core::array::from_fn(|_| AtomicU64::new(0)),
        })
    }

    /// # Safety
    /// `self` must stay where it is until every thread is done.
    pub unsafe fn activate(&self) {
        SCHED = self;
    }

    fn current(&self) -> Decision {
        self.decisions.get(self.next.load(SeqCst)).copied().unwrap_or_default()
    }

    /// Passes the token on and waits for it to come back. `take`: whether the decision is used up.
    fn switch(&self, take: bool) {
        let me = ME.with(|m| m.get());
        let d = self.current();
        if take {
            self.whole.store(0, SeqCst);
            self.next.fetch_add(1, SeqCst);
        }
        let done = self.done.load(SeqCst);
        let can: u32 = (0..self.n as u32).filter(|&i| i as usize != me && done >> i & 1 == 0).map(|i| 1 << i).sum();
        if can == 0 {
            return;
        }
        let mut k = d.to as u32 % can.count_ones();
        let mut to = 0;
        for i in 0..self.n as u32 {
            if can >> i & 1 == 1 {
                if k == 0 {
                    to = i;
                    break;
                }
                k -= 1;
            }
        }
        let (a, b) = (self.doing[me].load(SeqCst), self.doing[to as usize].load(SeqCst));
        let slot = (a.wrapping_mul(7) ^ b.wrapping_mul(31)) as usize % 64;
        self.met[slot].fetch_or(1 << ((a * 8 + b) % 64), SeqCst);
        self.give(to);
        self.wait(me);
    }

    fn give(&self, to: u32) {
        self.token.store(to, SeqCst);
        unsafe { futex_wake(&self.token) };
    }

    fn wait(&self, me: usize) {
        self.waiting[me].store(true, SeqCst);
        self.watching[me].store(true, SeqCst);
        let life = || (self.next.load(SeqCst), self.phase.load(SeqCst), self.done.load(SeqCst), self.ticks.load(SeqCst));
        let (mut asleep, mut idle, mut seen) = (0, 0, life());
        loop {
            let t = self.token.load(SeqCst);
            if t == me as u32 {
                self.watching[me].store(false, SeqCst);
                self.waiting[me].store(false, SeqCst);
                return;
            }
            unsafe { futex_wait(&self.token, t, 4) };
            let now = life();
            if self.token.load(SeqCst) != t || now != seen || self.waiting[t as usize].load(SeqCst) || self.poked.load(SeqCst)
                || (0..me).any(|i| self.watching[i].load(SeqCst))
            {
                (asleep, idle, seen) = (0, 0, now);
                continue;
            }
            // The holder may be waiting for a lock that a preempted thread holds. That is no fault of
            // the library, and the holder has to let others run. It is asleep, or spinning.
            let tid = self.tid[t as usize].load(SeqCst);
            idle += 1;
            asleep = if unsafe { state_of(tid) } == b'S' { asleep + 1 } else { 0 };
            if asleep >= 2 || idle >= 100 {
                self.poked.store(true, SeqCst);
                unsafe { crate::sys::syscall(234, crate::sys::syscall(39), tid as c_long, SIGUSR1 as c_long) };
                (asleep, idle) = (0, 0);
            }
        }
    }

    /// A thread starts: it waits for its first turn.
    pub fn enter(&self, me: usize) {
        ME.with(|m| m.set(me));
        self.tid[me].store(unsafe { crate::sys::syscall(186) } as u32, SeqCst);
        self.wait(me);
    }

    /// One library call, under the scheduler's control. `kind` is for the statistics.
    #[inline(never)]
    pub fn call(&self, kind: u32, f: &mut dyn FnMut()) {
        let me = ME.with(|m| m.get());
        self.doing[me].store(kind, SeqCst);
        let d = self.current();
        let stepping = d.steps > 0 && self.whole.load(SeqCst) >= d.calls as u32;
        if d.steps > 0 && !stepping {
            self.whole.fetch_add(1, SeqCst);
        }
        if stepping {
            LEFT.with(|l| {
                if l.get() == 0 {
                    l.set(d.steps)
                }
            });
            unsafe { set_tf() };
        }
        f();
        unsafe { clear_tf() };
        self.doing[me].store(0, SeqCst);
        // A decision with no steps means switching here; steps not used up carry over to the next call.
        let d = self.current();
        if d.steps == 0 && self.next.load(SeqCst) < self.decisions.len() {
            self.boundary.fetch_add(1, SeqCst);
            self.switch(true);
        }
    }

    /// This thread has finished its part of the phase; returns when all have.
    pub fn phase_end(&self) {
        let me = ME.with(|m| m.get());
        let phase = self.phase.load(SeqCst);
        self.waiting[me].store(true, SeqCst);
        let done = self.done.fetch_or(1 << me, SeqCst) | 1 << me;
        if done == (1 << self.n) - 1 {
            self.done.store(0, SeqCst);
            self.phase.fetch_add(1, SeqCst);
            self.give(0);
        } else {
            let mut to = 0;
            while done >> to & 1 == 1 {
                to += 1;
            }
            if self.token.load(SeqCst) == me as u32 {
                self.give(to);
            }
        }
        while self.phase.load(SeqCst) == phase {
            let t = self.token.load(SeqCst);
            unsafe { futex_wait(&self.token, t, 20) };
        }
        self.wait(me);
    }

    /// After the last phase: whoever is left may go on.
    pub fn leave(&self) {
        let me = ME.with(|m| m.get());
        let done = self.done.fetch_or(1 << me, SeqCst) | 1 << me;
        if self.token.load(SeqCst) == me as u32 {
            let mut to = 0;
            while to < self.n && done >> to & 1 == 1 {
                to += 1;
            }
            if to < self.n {
                self.give(to as u32);
            }
        }
    }
}

#[inline(always)]
unsafe fn set_tf() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[inline(always)]
unsafe fn clear_tf() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
}

/// Whether single-stepping works here.
pub fn works() -> bool {
    install();
    let s = Sched::new(1, vec![Decision { calls: 0, steps: 5, to: 0 }]);
    unsafe { s.activate() };
    ME.with(|m| m.set(0));
    let mut x = 0u64;
    s.call(0, &mut || {
        for i in 0..50 {
            x = std::hint::black_box(x + i);
        }
    });
    let ok = s.inside.load(SeqCst) == 1;
    unsafe { SCHED = std::ptr::null() };
    ok
}
