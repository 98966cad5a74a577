//! C10: hashers on concurrent threads. Real threads under the scheduler of `steps.rs`, which
//! preempts inside library calls at chosen instructions. Groups of hashers change hands between
//! phases; parameter sets, inputs and one idle hasher are shared by all. The whole run happens in a
//! fresh process (so that first calls race too), and every result must be what the same calls give,
//! one after the other, on a single thread in another fresh process.

use super::calls::*;
use crate::ctx::{fail, guarded, hex, Ctx, R};
use crate::steps::{self, Sched};
use crate::sys;
use b2::blake2sp;
use blake2s_simd as b2;
use std::sync::atomic::Ordering::SeqCst;

const MAXOPS: usize = 512;

/// Memory shared with the child: header words, then one slot per call, then text.
struct Board {
    p: *mut u8,
}
const HEAD: usize = 1024;
impl Board {
    fn new() -> Board {
        Board { p: sys::map(HEAD + MAXOPS * SLOT + 8192, sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON) }
    }
    fn word(&self, i: usize) -> *mut u64 {
        unsafe { (self.p as *mut u64).add(i) }
    }
    fn slot(&self, op: usize) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p.add(HEAD + op * SLOT), SLOT) }
    }
    fn text(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p.add(HEAD + MAXOPS * SLOT), 8192) }
    }
}
impl Drop for Board {
    fn drop(&mut self) {
        unsafe { sys::munmap(self.p as *mut _, HEAD + MAXOPS * SLOT + 8192) };
    }
}

macro_rules! has {
    ($t:ty: $($bound:tt)+) => {{
        struct Ask<T>(std::marker::PhantomData<T>);
        trait No {
            fn yes(&self) -> bool {
                false
            }
        }
        impl<T> No for &Ask<T> {}
        impl<T: $($bound)+> Ask<T> {
            fn yes(&self) -> bool {
                true
            }
        }
        (&Ask::<$t>(std::marker::PhantomData)).yes()
    }};
}

fn marks(c: &mut Ctx) -> R {
    let want = [
        ("State: Send", has!(b2::State: Send)),
        ("blake2sp::State: Send", has!(blake2sp::State: Send)),
        ("Params: Send", has!(b2::Params: Send)),
        ("Params: Sync", has!(b2::Params: Sync)),
        ("blake2sp::Params: Send", has!(blake2sp::Params: Send)),
        ("blake2sp::Params: Sync", has!(blake2sp::Params: Sync)),
        ("Hash: Send", has!(b2::Hash: Send)),
    ];
    for (what, ok) in want.iter() {
        if !ok {
            return fail("not usable across threads", format!("{} does not hold", what));
        }
    }
    c.lib_calls += 1;
    Ok(())
}

fn alone(p: &Plan, b: &Board) -> i32 {
    unsafe { sys::alarm(20) };
    let r = guarded(|| {
        let sh = shared(p);
        let (ix, end) = indices(p);
        let mut groups: Vec<Group> = (0..p.threads).map(|g| group(p, g)).collect();
        for ph in 0..p.ops.len() {
            for g in 0..p.threads {
                for (k, &op) in p.ops[ph][g].iter().enumerate() {
                    perform(p, &sh, &mut groups[g], op, b.slot(ix[ph][g] + k), &mut |f| f());
                }
            }
        }
        for (g, x) in groups.iter_mut().enumerate() {
            closing(x, b.slot(end + g));
        }
    });
    match r {
        Ok(()) => 0,
        Err(m) => say(b, &m),
    }
}

/// From where the two differ on.
fn part(x: &[u8], y: &[u8]) -> String {
    let at = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(0);
    format!("[{}..] {}", at, hex(&x[at..(at + 33).min(x.len())]))
}

fn say(b: &Board, m: &str) -> i32 {
    let k = m.len().min(8000);
    b.text()[..k].copy_from_slice(&m.as_bytes()[..k]);
    b.text()[k] = 0;
    1
}

fn together(p: &Plan, b: &Board) -> i32 {
    unsafe { sys::alarm(20) };
    steps::install();
    let sched = Sched::new(p.threads, p.decisions.clone());
    unsafe { sched.activate() };
    let (ix, end) = indices(p);
    // The groups are made by the threads themselves in the first phase: first calls race.
    let table: Vec<Lend<std::cell::UnsafeCell<Option<Group>>>> =
        (0..p.threads).map(|_| Lend(std::cell::UnsafeCell::new(None))).collect();
    let table = &Lend(table);
    let sh = Lend(std::sync::OnceLock::<Shared>::new());
    let sh = &sh;
    let board = &Lend(b);
    let sched = &*sched;
    let ix = &ix;
    let bad = std::sync::Mutex::new(String::new());
    let bad = &bad;
    let ok = std::thread::scope(|scope| {
        let hs: Vec<_> = (0..p.threads)
            .map(|me| {
                scope.spawn(move || {
                    let table: &Lend<Vec<Lend<std::cell::UnsafeCell<Option<Group>>>>> = table;
                    let (sh, board) = (&sh.0, &board.0);
                    sched.enter(me);
                    let mut broken = false;
                    let r = guarded(|| {
                        // Parameter sets and groups, made under the scheduler as well.
                        let mut made = None;
                        if p.quiet_start {
                            made = Some(group(p, me));
                        } else {
                            sched.call(7, &mut || made = Some(group(p, me)));
                        }
                        unsafe { *table.0[me].0.get() = made };
                        let mut made = None;
                        if me == 0 {
                            if p.quiet_start {
                                made = Some(shared(p));
                            } else {
                                sched.call(7, &mut || made = Some(shared(p)));
                            }
                            let _ = sh.set(made.unwrap());
                        }
                    });
                    if let Err(m) = r {
                        broken = true;
                        bad.lock().unwrap().push_str(&m);
                    }
                    sched.phase_end();
                    for ph in 0..p.ops.len() {
                        if !broken {
                            let r = guarded(|| {
                                for g in 0..p.threads {
                                    if p.owner[ph][g] != me {
                                        continue;
                                    }
                                    let x = unsafe { (*table.0[g].0.get()).as_mut().expect("group") };
                                    let sh = sh.get().expect("shared");
                                    for (k, &op) in p.ops[ph][g].iter().enumerate() {
                                        perform(p, sh, x, op, board.slot(ix[ph][g] + k), &mut |f| sched.call(op.kind as u32 % 8, f));
                                    }
                                }
                            });
                            if let Err(m) = r {
                                broken = true;
                                bad.lock().unwrap().push_str(&m);
                            }
                        }
                        sched.phase_end();
                    }
                    sched.leave();
                })
            })
            .collect();
        hs.into_iter().all(|h| h.join().is_ok())
    });
    unsafe {
        *b.word(0) = sched.inside.load(SeqCst);
        *b.word(1) = sched.boundary.load(SeqCst);
        *b.word(2) = sched.blocked.load(SeqCst);
        for i in 0..64 {
            *b.word(8 + i) = sched.met[i].load(SeqCst);
        }
    }
    let m = bad.lock().unwrap().clone();
    if !ok || !m.is_empty() {
        return say(b, &m);
    }
    let r = guarded(|| {
        for g in 0..p.threads {
            closing(unsafe { (*table.0[g].0.get()).as_mut().expect("group") }, b.slot(end + g));
        }
    });
    match r {
        Ok(()) => 0,
        Err(m) => say(b, &m),
    }
}

pub fn c10(c: &mut Ctx) -> R {
    static STEPS_WORK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    // Tried in a child, in case single-stepping kills the process here.
    let works = *STEPS_WORK.get_or_init(|| sys::in_child(|| !steps::works() as i32) == Ok(0));
    marks(c)?;
    let mut p = plan(c, false);
    if !works {
        c.probe("no single-stepping on this machine: switches at call boundaries only");
        for d in &mut p.decisions {
            d.steps = 0;
        }
    }
    let (ix, end) = indices(&p);
    if end + p.threads > MAXOPS {
        return fail("machinery", "too many calls".into());
    }
    for (ph, per) in p.ops.iter().enumerate() {
        for (g, ops) in per.iter().enumerate() {
            ev!(c, "phase {}: thread {} with group {}: {:?}", ph, p.owner[ph][g], g,
                ops.iter().map(|o| format!("{}({}, {}..+{})", KINDS[o.kind], o.a, o.at, o.len)).collect::<Vec<_>>());
        }
    }
    ev!(c, "switches after (calls, instructions, to): {:?}", p.decisions.iter().map(|d| (d.calls, d.steps, d.to)).collect::<Vec<_>>());
    let solo = Board::new();
    let both = Board::new();
    match sys::in_child(|| alone(&p, &solo)) {
        Ok(0) => {}
        // A failure without concurrency is not this property's; but it leaves nothing to compare with.
        Ok(_) => {
            c.probe("the calls fail even on one thread");
            return Ok(());
        }
        Err(_) => {
            c.probe("the calls fail even on one thread");
            return Ok(());
        }
    }
    let r = sys::in_child(|| together(&p, &both));
    let (inside, boundary, blocked) = unsafe { (*both.word(0), *both.word(1), *both.word(2)) };
    c.lib_calls += 2 * (end + 9 * p.threads) as u64;
    *c.faults.entry("preempted inside a call").or_insert(0) += inside;
    *c.faults.entry("preempted between calls").or_insert(0) += boundary;
    if blocked > 0 {
        c.probe("a thread waited for a lock that a preempted one held");
    }
    for i in 0..64 {
        let m = unsafe { *both.word(8 + i) };
        if m != 0 {
            c.sig(&[i as u64, m, p.threads as u64]);
        }
    }
    match r {
        Ok(0) => {}
        Ok(_) => {
            let t = both.text();
            let n = t.iter().position(|&x| x == 0).unwrap_or(0);
            let m = String::from_utf8_lossy(&t[..n]).into_owned();
            return fail("panic under concurrency", format!("a call that succeeds alone panicked: {}", m));
        }
        Err(14) => return fail("hang under concurrency", "calls that return alone did not return in 20 s".into()),
        Err(sig) => return fail("crash under concurrency", format!("calls that succeed alone ended the process with signal {}", sig)),
    }
    for ph in 0..p.ops.len() {
        for g in 0..p.threads {
            for (k, op) in p.ops[ph][g].iter().enumerate() {
                let (x, y) = (both.slot(ix[ph][g] + k), solo.slot(ix[ph][g] + k));
                c.observe(x);
                if x != y {
                    return fail(
                        &format!("concurrent result differs: {}", KINDS[op.kind]),
                        format!("phase {}, group {}, call {} ({} of {} bytes): {} with other threads about, {} alone", ph, g, k,
                            KINDS[op.kind], op.len, part(x, y), part(y, x)),
                    );
                }
            }
        }
    }
    for g in 0..p.threads {
        let (x, y) = (both.slot(end + g), solo.slot(end + g));
        c.observe(x);
        if x != y {
            return fail("concurrent result differs: final digests", format!("group {}: {} with other threads about, {} alone", g, part(x, y), part(y, x)));
        }
    }
    Ok(())
}
