//! hosts draw SCENARIO SEED FIRST COUNT STEP | hosts tape SCENARIO V TAPE... - runs C09's programs
//! on this host (native or interpreted) and prints a hash of everything the library answered.

use sim::ctx::{quiet_panics, Ctx};
use sim::rng::Rng;
use std::io::Write;

fn report(name: &str, c: &mut Ctx, id: &str) {
    print!("run {} ", id);
    std::io::stdout().flush().unwrap();
    let r = sim::scen::run(name, c);
    let class = match r {
        Ok(()) => "ok".to_string(),
        Err(v) => v.class,
    };
    println!("{:016x} {}", c.event_hash(), class);
    std::io::stdout().flush().unwrap();
}

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let name = &a[2];
    match a[1].as_str() {
        "draw" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (seed, first, count, step) = (n(3), n(4), n(5), n(6));
            for k in 0..count {
                let i = first + k * step;
                let mut c = Ctx::draw(Rng::derive(seed, name, i));
                report(name, &mut c, &i.to_string());
            }
        }
        "gettape" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let mut c = Ctx::draw(Rng::derive(n(3), name, n(4)));
            let _ = sim::scen::run(name, &mut c);
            println!("{}", c.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
        }
        "tape" => {
            for (i, t) in a[4..].iter().enumerate() {
                let tape = t.split(',').filter_map(|x| x.parse().ok()).collect();
                let mut c = Ctx::replay(tape);
                c.verbose = a[3] == "1";
                c.echo = c.verbose;
                report(name, &mut c, &i.to_string());
            }
        }
        _ => std::process::exit(2),
    }
}
