//! husk-sim: deterministic simulation of the husk TLS client. See /verif/DESIGN.md.
mod alloc;
mod case;
mod check;
mod gen;
mod judge;
mod model;
mod plan;
mod prng;
mod run;
mod server;
mod shrink;
mod world;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn num(a: Option<&String>) -> u64 {
    a.and_then(|s| s.parse().ok()).unwrap_or_else(|| usage())
}

fn usage() -> ! {
    eprintln!("usage: husk-sim check ID | replay FILE | gen ID SEED I | trace ID SEED FROM N | fixed");
    std::process::exit(2)
}

fn main() {
    run::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check::check(a.get(2).unwrap_or_else(|| usage())),
        Some("worker") => check::worker(&a[2], num(a.get(3)), a[4] == "1", num(a.get(5)), num(a.get(6)), num(a.get(7)), num(a.get(8))),
        Some("eval") => check::eval_file(a.get(2).unwrap_or_else(|| usage())),
        Some("replay") => check::replay(a.get(2).unwrap_or_else(|| usage())),
        Some("gen") => {
            let c = gen::gen(&a[2], num(a.get(3)), num(a.get(4)), a.get(5).is_some());
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        Some("trace") => {
            // event-log hashes, for comparing executions across processes
            let (s, f, n) = (num(a.get(3)), num(a.get(4)), num(a.get(5)));
            for i in f..f + n {
                let c = gen::gen(&a[2], s, i, false);
                let o = case::eval(&c, false);
                println!("{} {} {:016x} {} {:?}", a[2], i, o.hash, o.sim_us, o.findings.iter().map(|f| &f.code).collect::<Vec<_>>());
            }
            0
        }
        Some("bench") => {
            let t = std::time::Instant::now();
            let n = num(a.get(3));
            let mut slow = (0.0, 0);
            let mut runs = 0;
            for i in 0..n {
                let c = gen::gen(&a[2], 1, i, false);
                let t1 = std::time::Instant::now();
                let o = case::eval(&c, false);
                runs += o.runs;
                let d = t1.elapsed().as_secs_f64();
                if d > slow.0 {
                    slow = (d, i)
                }
                for f in &o.findings {
                    println!("{} {} {} {}", a[2], i, f.code, f.detail);
                }
            }
            println!("{} cases {} runs in {:?}; slowest {:?}", n, runs, t.elapsed(), slow);
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
