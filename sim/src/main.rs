//! sim run|min|replay|hash|selftest - see /verif/check for how it is driven.

use sim::ctx::{guarded, quiet_panics, Ctx, Violation};
use sim::rng::Rng;
use sim::{fixtures, scen, sys};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

#[global_allocator]
static HEAP: sim::heap::Heap = sim::heap::Heap;

const CAP: usize = 1 << 20;

struct Args(BTreeMap<String, String>);
impl Args {
    fn new() -> Args {
        let mut m = BTreeMap::new();
        let v: Vec<String> = std::env::args().skip(2).collect();
        let mut i = 0;
        while i + 1 < v.len() {
            m.insert(v[i].trim_start_matches("--").to_string(), v[i + 1].clone());
            i += 2;
        }
        Args(m)
    }
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| panic!("missing --{}", k))
    }
    fn n(&self, k: &str) -> u64 {
        self.s(k).parse().unwrap_or_else(|_| panic!("bad --{}", k))
    }
}

fn main() {
    sys::no_aslr();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    if let Err(e) = fixtures::self_test() {
        eprintln!("reference model self-test failed: {}", e);
        std::process::exit(3);
    }
    quiet_panics();
    let code = match cmd.as_str() {
        "run" => run(&Args::new()),
        "min" => min(&Args::new()),
        "replay" => replay(&Args::new()),
        "hash" => hash(&Args::new()),
        "deepfix" => deepfix(&Args::new()),
        "selftest" => {
            println!("model self-test passed");
            0
        }
        _ => {
            eprintln!("usage: sim run|min|replay|hash|selftest --key value ...");
            2
        }
    };
    std::process::exit(code);
}

/// One run. A panic that escapes a scenario is an error of the machinery, not a violation.
fn execute(prop: &str, c: &mut Ctx) -> Result<Option<Violation>, String> {
    unsafe { sys::alarm(scen::find(prop).map(|s| s.limit_s).unwrap_or(60)) };
    let r = guarded(|| scen::run(prop, c));
    unsafe { sys::alarm(0) };
    match r {
        Ok(Ok(())) => Ok(None),
        Ok(Err(v)) if v.class == "machinery" => Err(v.msg),
        Ok(Err(v)) => Ok(Some(v)),
        Err(m) => Err(format!("scenario panicked: {}", m)),
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "))
}

fn run(a: &Args) -> i32 {
    let (prop, seed, start, step, count) = (a.s("prop"), a.n("seed"), a.n("start"), a.n("step"), a.n("count"));
    let secs = a.n("secs") as f64;
    let t0 = Instant::now();
    let mut progress = std::fs::File::create(a.s("progress")).expect("progress file");
    // The progress cell is shared memory, so that marking a run costs nothing.
    progress.write_all(&[0; 16]).expect("progress file");
    let cell = unsafe {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(a.s("progress")).expect("progress");
        let p = sys::mmap(std::ptr::null_mut(), 16, sys::PROT_RW, sys::MAP_SHARED, f.as_raw_fd(), 0);
        p as *mut u64
    };
    let (mut runs, mut steps, mut calls, mut bytes, mut sim_ms) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut violation = String::from("null");
    let mut error = String::from("null");
    let mut sample = Vec::new();
    let mut i = start;
    while i < count {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        unsafe {
            std::ptr::write_volatile(cell, i + 1);
        }
        let mut c = Ctx::draw(Rng::derive(seed, &prop, i));
        // A readable sample: this worker's first run, with the log on.
        c.verbose = i == start && start < 3;
        let r = execute(&prop, &mut c);
        if c.verbose {
            sample = std::mem::take(&mut c.log);
        }
        runs += 1;
        steps += c.steps;
        calls += c.lib_calls;
        bytes += c.bytes;
        sim_ms += c.sim_ms;
        for (k, n) in &c.faults {
            *faults.entry(k).or_insert(0) += n;
        }
        for (k, n) in &c.probes {
            *probes.entry(k).or_insert(0) += n;
        }
        if sigs.len() < 400_000 {
            sigs.append(&mut c.sigs);
        }
        if c.steps > 0 && c.lib_calls > 0 && hashes.len() < 150_000 {
            hashes.push(c.event_hash());
        }
        match r {
            Ok(None) => {}
            Ok(Some(v)) => {
                violation = format!("{{\"run\": {}, \"class\": {}, \"msg\": {}}}", i, jstr(&v.class), jstr(&v.msg));
                break;
            }
            Err(e) => {
                error = jstr(&format!("run {}: {}", i, e));
                break;
            }
        }
        i += step;
    }
    {
        sample.truncate(14);
        for s in &mut sample {
            if s.len() > 200 {
                let mut n = 200;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
        }
    }
    let mut bin = Vec::with_capacity(8 * (hashes.len() + sigs.len() + 1));
    bin.extend_from_slice(&(hashes.len() as u64).to_le_bytes());
    for h in &hashes {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    for s in &sigs {
        bin.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(a.s("out") + ".bin", bin).expect("write");
    let out = format!(
        "{{\"runs\": {}, \"steps\": {}, \"lib_calls\": {}, \"bytes\": {}, \"sim_ms\": {}, \"faults\": {}, \"probes\": {}, \"sample\": {}, \"violation\": {}, \"error\": {}, \"wall_s\": {:.3}}}\n",
        runs, steps, calls, bytes, sim_ms, jmap(&faults), jmap(&probes), jlist(&sample), violation, error,
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(a.s("out"), out).expect("write");
    0
}

/// Recomputes the model's deep chaining values: prints them as source, or checks them.
fn deepfix(a: &Args) -> i32 {
    let check = a.s("check") == "1";
    let (d, s) = (a.n("depths") as usize, a.n("sp") as usize);
    let (lanes, sps) = sim::deep::compute(d, s);
    if check {
        for i in 0..lanes.len() {
            for k in 0..d {
                if lanes[i][k] != sim::deep::LANE_H[i][k] {
                    eprintln!("deep constant: lane {} depth {}", i, k);
                    return 3;
                }
            }
        }
        for i in 0..sps.len() {
            for k in 0..s {
                if sps[i][k] != sim::deep::SP_H[i][k] {
                    eprintln!("deep constant: blake2sp {} depth {}", i, k);
                    return 3;
                }
            }
        }
        println!("deep constants confirmed");
        return 0;
    }
    println!("#[rustfmt::skip]\npub const LANE_H: [[[u32; 8]; {}]; {}] = {:?};", d, lanes.len(), lanes);
    println!("#[rustfmt::skip]\npub const SP_H: [[[[u32; 8]; 8]; {}]; {}] = {:?};", s, sps.len(), sps);
    0
}

/// Event hashes of single runs, for the determinism self-test.
fn hash(a: &Args) -> i32 {
    let (prop, seed) = (a.s("prop"), a.n("seed"));
    let mut i = a.n("start");
    while i < a.n("count") {
        let mut c = Ctx::draw(Rng::derive(seed, &prop, i));
        let r = execute(&prop, &mut c);
        println!("{} {:016x} {} {:?}", i, c.event_hash(), c.tape.len(), r);
        i += a.n("step");
    }
    0
}

/// What a candidate did, in a forked child.
#[derive(Clone, Debug)]
struct Outcome {
    class: Option<String>,
    msg: String,
    tape: Vec<u64>,
    marks: Vec<usize>,
    error: Option<String>,
}

struct Lab {
    prop: String,
    tape: *mut u64,
    text: *mut u8,
}

const TEXT: usize = 1 << 16;

impl Lab {
    fn new(prop: &str) -> Lab {
        // If it takes the process down, the runs themselves will show that.
        if let Some(f) = scen::find(prop).and_then(|s| s.prepare) {
            let done = sys::in_child(|| {
                unsafe { sys::alarm(400) };
                f();
                0
            });
            if done == Ok(0) {
                f();
            }
        }
        Lab {
            prop: prop.to_string(),
            tape: sys::map((CAP + 1) * 8, sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON) as *mut u64,
            text: sys::map(TEXT, sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON),
        }
    }
    fn put(&self, parts: &[&str]) {
        let s = parts.join("\u{1}");
        let b = s.as_bytes();
        let n = b.len().min(TEXT - 8);
        unsafe {
            *(self.text as *mut u64) = n as u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.text.add(8), n);
        }
    }
    fn try_run(&self, mk: &dyn Fn() -> Ctx) -> Outcome {
        unsafe {
            *self.tape = 0;
            *(self.text as *mut u64) = 0;
        }
        let r = sys::in_child(|| {
            let mut c = mk();
            c.mirror = Some((self.tape, CAP));
            match execute(&self.prop, &mut c) {
                Ok(None) => {
                    let marks: Vec<String> = c.marks.iter().map(|m| m.to_string()).collect();
                    self.put(&["", "", &marks.join(",")]);
                    0
                }
                Ok(Some(v)) => {
                    let marks: Vec<String> = c.marks.iter().map(|m| m.to_string()).collect();
                    let mut marks = marks.join(",");
                    marks.truncate(TEXT / 2);
                    let msg: String = v.msg.chars().take(4000).collect();
                    self.put(&[&v.class, &msg, &marks]);
                    1
                }
                Err(e) => {
                    self.put(&[&e]);
                    2
                }
            }
        });
        let n = unsafe { *self.tape } as usize;
        let tape = unsafe { std::slice::from_raw_parts(self.tape.add(1), n) }.to_vec();
        let text = unsafe {
            let n = *(self.text as *mut u64) as usize;
            String::from_utf8_lossy(std::slice::from_raw_parts(self.text.add(8), n)).into_owned()
        };
        let parts: Vec<&str> = text.split('\u{1}').collect();
        let marks = parts.get(2).map(|m| m.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
        match r {
            Ok(0) => Outcome { class: None, msg: String::new(), tape, marks, error: None },
            Ok(1) => Outcome { class: Some(parts[0].into()), msg: parts[1].into(), tape, marks, error: None },
            Ok(n) => Outcome { class: None, msg: String::new(), tape, marks, error: Some(format!("exit {}: {}", n, text)) },
            Err(sig) => Outcome {
                class: Some(signal_class(sig)),
                msg: format!("the process was ended by signal {} inside this call", sig),
                tape,
                marks,
                error: None,
            },
        }
    }
    fn replay(&self, tape: &[u64]) -> Outcome {
        self.try_run(&|| Ctx::replay(tape.to_vec()))
    }
}

fn signal_class(sig: i32) -> String {
    match sig {
        4 => "crash: illegal instruction (SIGILL)".into(),
        6 => "crash: abort (SIGABRT)".into(),
        7 => "crash: bus error (SIGBUS)".into(),
        8 => "crash: arithmetic trap (SIGFPE)".into(),
        11 => "crash: memory access violation (SIGSEGV)".into(),
        14 => "hang: no return within the time limit".into(),
        n => format!("crash: signal {}", n),
    }
}

fn min(a: &Args) -> i32 {
    let (prop, seed, index) = (a.s("prop"), a.n("seed"), a.n("index"));
    let budget = a.n("secs") as f64;
    let t0 = Instant::now();
    let lab = Lab::new(&prop);
    let first = lab.try_run(&|| Ctx::draw(Rng::derive(seed, &prop, index)));
    let class = match (&first.class, &first.error) {
        (Some(k), _) => k.clone(),
        (None, Some(e)) => {
            eprintln!("error of the machinery: {}", e);
            return 3;
        }
        _ => {
            eprintln!("run {} of {} did not fail again", index, prop);
            return 4;
        }
    };
    let mut best = first.clone();
    let mut tried = 0u64;
    let slow = class.starts_with("hang");
    let mut attempt = |best: &mut Outcome, cand: Vec<u64>| -> bool {
        if slow || t0.elapsed().as_secs_f64() > budget {
            return false;
        }
        tried += 1;
        let o = lab.replay(&cand);
        if o.class.as_deref() == Some(&class)
            && (o.tape.len() < best.tape.len() || (o.tape.len() == best.tape.len() && o.tape < best.tape))
        {
            *best = o;
            return true;
        }
        false
    };
    loop {
        let before = (best.tape.len(), best.tape.clone());
        // Whole steps, many at once first. A crash leaves no marks, so spans do the work then.
        let mut size = (best.marks.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size < best.marks.len() {
                let (from, to) = (best.marks[i], best.marks[i + size]);
                let mut cand = best.tape.clone();
                if to <= cand.len() && from < to {
                    cand.drain(from..to);
                    if attempt(&mut best, cand) {
                        continue;
                    }
                }
                i += 1;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Any spans.
        let mut size = (best.tape.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.tape.len() {
                let mut cand = best.tape.clone();
                cand.drain(i..i + size);
                if !attempt(&mut best, cand) {
                    i += size;
                }
            }
            size /= 2;
        }
        // Values.
        let mut i = 0;
        while i < best.tape.len() {
            let v = best.tape[i];
            if v != 0 {
                let mut cand = best.tape.clone();
                cand[i] = 0;
                if !attempt(&mut best, cand) {
                    // Lower it: halving, then by steps.
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.tape.clone();
                        if i >= cand.len() {
                            break;
                        }
                        cand[i] = mid;
                        if attempt(&mut best, cand) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if hi > 64 {
                        for d in [64u64, 1].iter() {
                            while i < best.tape.len() && best.tape[i] > *d {
                                let mut cand = best.tape.clone();
                                cand[i] -= d;
                                if !attempt(&mut best, cand) {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if t0.elapsed().as_secs_f64() > budget || slow || (best.tape.len(), best.tape.clone()) == before {
            break;
        }
    }
    // Run the winner once more, with the log.
    let log = {
        let path = a.s("out") + ".log";
        let tape = best.tape.clone();
        let p2 = path.clone();
        let prop2 = prop.clone();
        let _ = sys::in_child(move || {
            let f = std::fs::File::create(&p2).expect("log file");
            // Write through a redirected stdout-like file, line by line, so that a crash keeps it.
            let mut c = Ctx::replay(tape);
            c.verbose = true;
            c.sink = Some(f);
            let _ = execute(&prop2, &mut c);
            0
        });
        let s = std::fs::read_to_string(&path).unwrap_or_default();
        let _ = std::fs::remove_file(&path);
        s.lines().map(|l| l.to_string()).collect::<Vec<_>>()
    };
    let tape: Vec<String> = best.tape.iter().map(|v| v.to_string()).collect();
    let orig: Vec<String> = first.tape.iter().map(|v| v.to_string()).collect();
    let out = format!(
        "{{\n\"property\": {},\n\"build\": {},\n\"seed\": {},\n\"run\": {},\n\"class\": {},\n\"msg\": {},\n\"candidates_tried\": {},\n\"original_tape_length\": {},\n\"tape\": [{}],\n\"events\": [\n{}\n]\n}}\n",
        jstr(&prop), jstr(&a.s("build")), seed, index, jstr(&class), jstr(&best.msg), tried, orig.len(), tape.join(","),
        log.iter().map(|l| format!("  {}", jstr(l))).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(a.s("out"), out).expect("write");
    println!("{}: {}", class, best.msg);
    0
}

fn field(text: &str, key: &str) -> String {
    let k = format!("\"{}\": ", key);
    let at = text.find(&k).unwrap_or_else(|| panic!("no {} in the replay file", key)) + k.len();
    let line = text[at..].lines().next().unwrap();
    line.trim_end_matches(',').to_string()
}

fn replay(a: &Args) -> i32 {
    let text = std::fs::read_to_string(a.s("file")).expect("replay file");
    let prop = field(&text, "property").trim_matches('"').to_string();
    let class = field(&text, "class");
    let tape: Vec<u64> =
        field(&text, "tape").trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.parse().ok()).collect();
    println!("replaying {} ({} choices)", a.s("file"), tape.len());
    let lab = Lab::new(&prop);
    let o = lab.try_run(&|| {
        let mut c = Ctx::replay(tape.clone());
        c.verbose = true;
        c.echo = true;
        c
    });
    std::io::stdout().flush().ok();
    if let Some(e) = o.error {
        eprintln!("error of the machinery: {}", e);
        return 3;
    }
    match o.class {
        None => {
            println!("no violation");
            0
        }
        Some(k) => {
            println!("violation of {}: {}: {}", prop, k, o.msg);
            if jstr(&k) == class {
                1
            } else {
                println!("(the file recorded another class: {})", class);
                5
            }
        }
    }
}
