//! races draw SEED FIRST COUNT | races gettape SEED INDEX | races tape TAPE - C10's programs on threads that an interpreter schedules (Miri), which reports
//! data races. Results must be those of the same calls made on one thread afterwards.

use sim::ctx::{guarded, hex, quiet_panics, Ctx};
use sim::rng::Rng;
use sim::scen::calls::*;
use std::cell::UnsafeCell;
use std::sync::{Barrier, OnceLock};

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "tape" => one(Ctx::replay(a[2].split(',').filter_map(|x| x.parse().ok()).collect())),
        "gettape" => {
            let mut c = Ctx::draw(Rng::derive(num(2), "races", num(3)));
            plan(&mut c, true);
            println!("{}", c.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
        }
        _ => {
            for i in num(3)..num(3) + num(4) {
                println!("program {}", i);
                one(Ctx::draw(Rng::derive(num(2), "races", i)));
            }
            println!("all done");
        }
    }
}

fn one(mut c: Ctx) {
    let p = plan(&mut c, true);
    let (ix, end) = indices(&p);
    let out: Vec<Lend<UnsafeCell<Vec<u8>>>> = (0..end).map(|_| Lend(UnsafeCell::new(vec![0; SLOT]))).collect();
    let table: Vec<Lend<UnsafeCell<Option<Group>>>> = (0..p.threads).map(|_| Lend(UnsafeCell::new(None))).collect();
    let sh = Lend(OnceLock::<Shared>::new());
    let bar = Barrier::new(p.threads);
    let (out, table, sh, bar, p2, ix2) = (&out, &table, &sh, &bar, &p, &ix);
    let panics = std::sync::Mutex::new(0);
    let panics2 = &panics;
    std::thread::scope(|s| {
        for me in 0..p.threads {
            s.spawn(move || {
                let sh: &Lend<OnceLock<Shared>> = sh;
                let (p, ix) = (p2, ix2);
                unsafe { *table[me].0.get() = guarded(|| group(p, me)).ok() };
                if me == 0 {
                    if let Ok(x) = guarded(|| shared(p)) {
                        let _ = sh.0.set(x);
                    }
                }
                bar.wait();
                for ph in 0..p.ops.len() {
                    for g in 0..p.threads {
                        if p.owner[ph][g] != me {
                            continue;
                        }
                        let r = guarded(|| {
                            let x = unsafe { (*table[g].0.get()).as_mut().expect("group") };
                            let sh = sh.0.get().expect("shared");
                            for (k, &op) in p.ops[ph][g].iter().enumerate() {
                                let o = unsafe { &mut *out[ix[ph][g] + k].0.get() };
                                perform(p, sh, x, op, o, &mut |f| f());
                            }
                        });
                        if r.is_err() {
                            *panics2.lock().unwrap() += 1;
                        }
                    }
                    bar.wait();
                }
            });
        }
    });
    // The same, one after the other.
    let solo = guarded(|| {
        let sh = shared(&p);
        let mut groups: Vec<Group> = (0..p.threads).map(|g| group(&p, g)).collect();
        let mut slots = vec![vec![0u8; SLOT]; end];
        for ph in 0..p.ops.len() {
            for g in 0..p.threads {
                for (k, &op) in p.ops[ph][g].iter().enumerate() {
                    perform(&p, &sh, &mut groups[g], op, &mut slots[ix[ph][g] + k], &mut |f| f());
                }
            }
        }
        slots
    });
    let slots = match solo {
        Ok(s) => s,
        Err(_) => {
            println!("the calls fail even on one thread");
            return;
        }
    };
    if *panics.lock().unwrap() > 0 {
        println!("DIFFERS: a call that succeeds alone panicked");
        std::process::exit(9);
    }
    let mut k = 0;
    for ph in 0..p.ops.len() {
        for g in 0..p.threads {
            for (j, op) in p.ops[ph][g].iter().enumerate() {
                k = ix[ph][g] + j;
                let x = unsafe { &*out[k].0.get() };
                if *x != slots[k] {
                    println!("DIFFERS: phase {} group {} {}: {} with other threads about, {} alone", ph, g, KINDS[op.kind], hex(&x[..40]), hex(&slots[k][..40]));
                    std::process::exit(9);
                }
            }
        }
    }
    println!("agrees: {} threads, {} calls", p.threads, k + 1);
}
