//! The run context: the choice tape, the event log, the statistics, and the wrapper through which
//! every call into the library goes.

use crate::rng::{Fnv, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A property violation. `class` is stable under shrinking; `msg` is for people.
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Violation>;

pub fn fail<T>(class: &str, msg: String) -> R<T> {
    Err(Violation { class: class.to_string(), msg })
}

enum Mode {
    Draw(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Ctx {
    mode: Mode,
    /// Every choice made so far: this is the tape.
    pub tape: Vec<u64>,
    /// Positions on the tape where a step begins (used only to shrink whole steps).
    pub marks: Vec<usize>,
    /// Print the event log (replay only). Never influences choices.
    pub verbose: bool,
    /// Little data, for interpreters.
    pub small: bool,
    pub log: Vec<String>,
    /// Running hash of everything observed: equal tapes must give equal event hashes.
    pub ev: Fnv,
    pub steps: u64,
    pub lib_calls: u64,
    pub bytes: u64,
    pub sim_ms: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sigs: BTreeSet<u64>,
    /// Print the log as it grows (replay), so that it survives a crash.
    pub echo: bool,
    /// Or write it here, line by line.
    pub sink: Option<std::fs::File>,
    /// Shared memory in which the tape is mirrored, so that it survives a crash: [0] is its length.
    pub mirror: Option<(*mut u64, usize)>,
}

#[macro_export]
macro_rules! ev {
    ($c:expr, $($arg:tt)*) => { if $c.verbose { let s = format!($($arg)*); $c.push_log(s); } };
}

impl Ctx {
    pub fn draw(rng: Rng) -> Ctx {
        Ctx::with(Mode::Draw(rng))
    }
    pub fn replay(tape: Vec<u64>) -> Ctx {
        Ctx::with(Mode::Replay(tape, 0))
    }
    fn with(mode: Mode) -> Ctx {
        Ctx {
            mode,
            tape: Vec::new(),
            marks: Vec::new(),
            verbose: false,
            small: false,
            log: Vec::new(),
            ev: Fnv::new(),
            steps: 0,
            lib_calls: 0,
            bytes: 0,
            sim_ms: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sigs: BTreeSet::new(),
            echo: false,
            sink: None,
            mirror: None,
        }
    }

    pub fn push_log(&mut self, s: String) {
        let s = s.replace('\n', " ");
        if self.echo {
            println!("  [{}] {}", self.log.len(), s);
        }
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = writeln!(f, "{}", s);
        }
        self.log.push(s);
    }

    fn rec(&mut self, v: u64) -> u64 {
        self.tape.push(v);
        if let Some((p, cap)) = self.mirror {
            let n = self.tape.len();
            if n < cap {
                unsafe {
                    *p.add(n) = v;
                    *p = n as u64;
                }
            }
        }
        v
    }

    /// A number in 0..n; 0 is the simplest.
    pub fn pick(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Draw(r) => r.below(n.max(1)),
            Mode::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                v % n.max(1)
            }
        };
        self.rec(v)
    }

    /// An index with the given weights; 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let v = match &mut self.mode {
            Mode::Draw(r) => {
                let total: u64 = w.iter().sum();
                let mut x = r.below(total.max(1));
                let mut k = 0;
                while x >= w[k] {
                    x -= w[k];
                    k += 1;
                }
                k as u64
            }
            Mode::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                let v = v % w.len() as u64;
                if w[v as usize] == 0 { w.iter().position(|&x| x > 0).unwrap_or(0) as u64 } else { v }
            }
        };
        self.rec(v) as usize
    }

    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = match &mut self.mode {
            Mode::Draw(r) => (r.below(den) < num) as u64,
            Mode::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                (v != 0) as u64
            }
        };
        self.rec(v) == 1
    }

    /// How many steps a run may take: drawn off-tape (the tape holds one "continue" mark per step,
    /// so that shrinking can delete steps).
    pub fn goal(&mut self, small: u64, large: u64) -> u64 {
        match &mut self.mode {
            Mode::Draw(r) => {
                if r.below(3) > 0 {
                    1 + r.below(small)
                } else {
                    1 + r.below(large)
                }
            }
            Mode::Replay(..) => u64::MAX,
        }
    }

    pub fn more(&mut self, done: u64, goal: u64) -> bool {
        self.marks.push(self.tape.len());
        let v = match &mut self.mode {
            Mode::Draw(_) => (done < goal) as u64,
            Mode::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                (v != 0) as u64
            }
        };
        if v == 1 {
            self.steps += 1;
        }
        self.rec(v) == 1
    }

    pub fn distinct(&mut self, k: usize, n: usize) -> Vec<usize> {
        let mut pool: Vec<usize> = (0..n).collect();
        (0..k).map(|_| { let i = self.pick(pool.len() as u64) as usize; pool.remove(i) }).collect()
    }

    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    /// An abstract state/transition reached.
    pub fn sig(&mut self, parts: &[u64]) {
        let mut h = Fnv::new();
        for &p in parts {
            h.u64(p);
        }
        self.sigs.insert(h.0 >> 16);
    }
    pub fn observe(&mut self, b: &[u8]) {
        self.ev.bytes(b);
    }
    pub fn event_hash(&self) -> u64 {
        let mut h = self.ev;
        for &v in &self.tape {
            h.u64(v);
        }
        h.0
    }

    /// A library call that must succeed.
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        self.lib_calls += 1;
        match guarded(f) {
            Ok(v) => Ok(v),
            Err(m) => fail(&format!("panic in {}", what), format!("{} panicked: {}", what, m)),
        }
    }
    /// A library call that may refuse.
    pub fn try_call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.lib_calls += 1;
        guarded(f)
    }

    pub fn check_digest(&mut self, what: &str, got: &[u8], want: &[u8]) -> R {
        self.observe(got);
        if got != want {
            return fail(&format!("digest: {}", what), format!("{}: got {}, expected {}", what, hex(got), hex(want)));
        }
        Ok(())
    }
    pub fn check_count(&mut self, what: &str, got: u64, want: u64) -> R {
        self.ev.u64(got);
        if got != want {
            return fail(&format!("count: {}", what), format!("{}: count() is {}, bytes input are {}", what, got, want));
        }
        Ok(())
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Runs `f`, turning a panic into its message. `quiet_panics` must have been called.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
