mod campaign;
mod rt;
mod store;
mod types;
mod world;

use std::io::Write;

fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string())
}

/// One simulated run, on a thread of its own so that it starts from clean thread-local state.
fn one(prof: &'static str, seed: u64, polls: u64) -> (bool, Vec<String>) {
    std::thread::spawn(move || {
        let done = rt::run(seed, rt::SchedCfg { p_random: 0.0, p_park: 0.0, park_max_ms: 0 }, polls, campaign::scenario(prof, seed));
        let panics = rt::take_panics();
        for (l, msg) in panics {
            types::emit("panic", serde_json::json!({"n": l.0, "msg": msg}));
        }
        if !done {
            types::emit("budget", serde_json::json!({"polls": rt::polls()}));
        }
        let t = types::take_trace();
        types::trace_on(false);
        rt::teardown();
        world::WORLD.with(|w| w.borrow_mut().take());
        (done, t)
    })
    .join()
    .unwrap()
}

/// One simulated run in a process of its own. If that dies or hangs, the trace says so.
fn run_child(prof: &str, seed: u64, polls: u64) -> Vec<u8> {
    use std::io::Read;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["one", prof, &seed.to_string(), &polls.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut out = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = out.read_to_end(&mut v);
        v
    });
    let t0 = std::time::Instant::now();
    let st = loop {
        match c.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if t0.elapsed().as_secs() > 60 => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(1)),
        }
    };
    let v = h.join().unwrap();
    let what = match st {
        Some(s) if s.success() => return v,
        Some(_) => "abort",
        None => "hang",
    };
    format!(
        "{}\n{}\n",
        serde_json::json!({"e": "begin", "t": 0, "seed": seed, "prof": prof, "nodes": [1], "voters": [1], "keep": 0, "since": 0, "batch": 1,
                           "lease": 0, "emin": 0, "smper": 1, "savec": 1, "chunk": 0, "payload": 1, "stl": 0}),
        serde_json::json!({"e": what, "t": 0})
    )
    .into_bytes()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    rt::install_panic_hook();
    match cmd.as_str() {
        // Random campaign: `sim PROFILE FIRST COUNT OUT [--shards N]`: one ndjson file per shard.
        "sim" => {
            let prof: &'static str = Box::leak(args[2].clone().into_boxed_str());
            let first: u64 = args[3].parse().unwrap();
            let count: u64 = args[4].parse().unwrap();
            let out = args[5].clone();
            let shards: u64 = arg(&args, "--shards", "8").parse().unwrap();
            let polls: u64 = arg(&args, "--polls", "3000000").parse().unwrap();
            let mut hs = vec![];
            for s in 0..shards {
                let out = out.clone();
                hs.push(std::thread::spawn(move || {
                    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}.{}.ndjson", out, s)).unwrap());
                    let mut n = 0u64;
                    let mut i = s;
                    while i < count {
                        // A process for each run: some sources of randomness are global to a process.
                        let o = run_child(prof, first + i, polls);
                        n += o.iter().filter(|x| **x == b'\n').count() as u64;
                        f.write_all(&o).unwrap();
                        i += shards;
                    }
                    f.flush().unwrap();
                    n
                }));
            }
            let n: u64 = hs.into_iter().map(|h| h.join().unwrap()).sum();
            println!("events {}", n);
        }
        "one" => {
            let prof: &'static str = Box::leak(args[2].clone().into_boxed_str());
            let (_, t) = one(prof, args[3].parse().unwrap(), args[4].parse().unwrap());
            let out = std::io::stdout();
            let mut f = std::io::BufWriter::new(out.lock());
            for l in t {
                writeln!(f, "{}", l).unwrap();
            }
            f.flush().unwrap();
        }
        _ => {
            eprintln!("usage: orsim sim PROFILE FIRST COUNT OUT [--shards N]");
            std::process::exit(2);
        }
    }
}
