//! pgnumeric under observation.  Reads cases (one per line: id, operation, arguments, tab separated)
//! on stdin, runs the real API, writes one event per case on stdout.
mod alloc;
mod exec;
mod lens;

use exec::{exec, Case};
use std::io::{BufRead, Write};

#[cfg(feature = "checkalloc")]
#[global_allocator]
static A: alloc::CheckAlloc = alloc::CheckAlloc;

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" @{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        exec::PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

fn parse_line(line: &str) -> (&str, Case) {
    let mut it = line.split('\t');
    let id = it.next().unwrap();
    let op = it.next().unwrap();
    (id, Case::parse(op, &mut it))
}

fn run_one(line: &str, out: &mut String) {
    let (id, case) = parse_line(line);
    out.push_str(id);
    out.push('\t');
    exec(&case, out);
}

fn main() {
    hook();
    let args: Vec<String> = std::env::args().collect();
    if let Ok(f) = std::env::var("PGN_FILL") {
        alloc::FILL.store(f.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    if std::env::var_os("PGN_STRICT").is_some() {
        alloc::STRICT.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("stress") => stress(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap()),
        Some("embedded") => embedded(&args[2..]),
        _ => batch(),
    }
}

fn batch() {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = String::with_capacity(1 << 16);
    let mut input = stdin.lock();
    let mut line = String::with_capacity(1 << 16);
    let time = std::env::var_os("PGN_TIME").is_some();
    exec::PANIC.with(|p| p.borrow_mut().reserve(1024));
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let l = line.trim_end_matches('\n');
        out.clear();
        #[cfg(feature = "checkalloc")]
        {
            use std::sync::atomic::Ordering::Relaxed;
            let l0 = alloc::LIVE.load(Relaxed);
            run_one(l, &mut out);
            if alloc::LIVE.load(Relaxed) > l0 {
                // first use of a lazily initialised constant may keep memory: only a repeated
                // loss is a leak
                let mut k = 0;
                for _ in 0..2 {
                    let l1 = alloc::LIVE.load(Relaxed);
                    out.clear();
                    run_one(l, &mut out);
                    if alloc::LIVE.load(Relaxed) > l1 {
                        k += 1;
                    }
                }
                if k == 2 {
                    out.push_str("\t!LEAK");
                }
            }
        }
        #[cfg(not(feature = "checkalloc"))]
        run_one(l, &mut out);
        if time {
            let mut o2 = String::new();
            let t = std::time::Instant::now();
            run_one(l, &mut o2);
            out.push_str(&format!("\t!ns={}", t.elapsed().as_nanos()));
        }
        out.push('\n');
        let mut so = stdout.lock();
        so.write_all(out.as_bytes()).unwrap();
        so.flush().unwrap();
    }
    use std::sync::atomic::Ordering::Relaxed;
    println!("END\t{}\t{}", alloc::ALLOCS.load(Relaxed), alloc::LIVE.load(Relaxed));
}

fn rng(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

/// orders the operations of all threads, without ordering their memory accesses
static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn tick() -> u64 {
    SEQ.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

/// All threads start cold together, each runs every case in its own order on shared operands; then
/// the same cases run sequentially, and every observation must be the same.
fn stress(threads: usize, rounds: usize, seed: u64) {
    use std::sync::{Arc, Barrier};
    alloc::QUARANTINE.store(0, std::sync::atomic::Ordering::Relaxed);
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let cases: Arc<Vec<(String, Case)>> = Arc::new(lines.iter().map(|l| { let (i, c) = parse_line(l); (i.to_string(), c) }).collect());
    let barrier = Arc::new(Barrier::new(threads));
    let (tx, rx) = std::sync::mpsc::channel();
    let mut hs = Vec::new();
    for t in 0..threads {
        let cases = cases.clone();
        let barrier = barrier.clone();
        let tx = tx.clone();
        hs.push(std::thread::spawn(move || {
            let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (t as u64 + 1).wrapping_mul(0xD1B54A32D192ED03) | 1;
            barrier.wait();
            for r in 0..rounds {
                let mut order: Vec<usize> = (0..cases.len()).collect();
                if r > 0 || t % 2 == 1 {
                    for i in (1..order.len()).rev() {
                        order.swap(i, (rng(&mut s) % (i as u64 + 1)) as usize);
                    }
                }
                let mut seen = Vec::with_capacity(order.len());
                for i in order {
                    let mut o = String::new();
                    let from = tick();
                    exec(&cases[i].1, &mut o);
                    seen.push((i, o, from, tick()));
                    if rng(&mut s) % 16 == 0 {
                        std::thread::yield_now();
                    }
                }
                tx.send((t, r, seen)).unwrap();
            }
        }));
    }
    drop(tx);
    let mut all = Vec::new();
    for m in rx {
        all.push(m);
    }
    for h in hs {
        h.join().unwrap();
    }
    // sequential reference, after
    let mut refs = Vec::new();
    for (_, c) in cases.iter() {
        let mut o = String::new();
        exec(c, &mut o);
        refs.push(o);
    }
    let mut obs = 0u64;
    let mut bad = 0u64;
    let mut spans: Vec<(u64, u64, usize, usize)> = Vec::new();
    for (t, r, seen) in all {
        for (i, o, from, to) in seen {
            spans.push((from, to, t, i));
            obs += 1;
            if o != refs[i] {
                bad += 1;
                if bad <= 5 {
                    println!("MISMATCH\t{}\tthread {} round {}\tgot {}\twant {}", cases[i].0, t, r, &o[..o.len().min(2000)], &refs[i][..refs[i].len().min(2000)]);
                }
            }
        }
    }
    for (i, r) in refs.iter().enumerate() {
        println!("REF\t{}\t{}", cases[i].0, r);
    }
    // operations that ran while another thread's was under way, which operations met, and
    // a signature of the order in which the threads' operations started
    spans.sort();
    let mut overlaps = 0u64;
    let mut open: Vec<(u64, usize, usize)> = Vec::new();
    let mut met = std::collections::HashSet::new();
    let mut sig = 0xcbf29ce484222325u64;
    for &(from, to, t, i) in &spans {
        open.retain(|x| x.0 > from);
        let mut hit = false;
        for x in &open {
            if x.1 != t {
                hit = true;
                met.insert((x.2.min(i), x.2.max(i)));
            }
        }
        if hit { overlaps += 1; }
        open.push((to, t, i));
        sig = (sig ^ (t as u64)).wrapping_mul(0x100000001b3);
    }
    println!("STRESS\t{}\t{}\t{}\t{}\t{}\t{:016x}", obs, bad, overlaps, met.len(), threads, sig);
}

/// For interpreters: cases come from a file baked in at build time (PGN_CASES), sharded by index.
fn embedded(args: &[String]) {
    let shard: usize = args[0].parse().unwrap();
    let of: usize = args[1].parse().unwrap();
    let cases: &str = include_str!(concat!(env!("OUT_DIR"), "/cases.txt"));
    let threads: usize = args.get(2).map_or(0, |s| s.parse().unwrap());
    let lines: Vec<&'static str> = cases.lines().enumerate().filter(|(i, _)| i % of == shard).map(|x| x.1).collect();
    if threads > 0 {
        let mut hs = Vec::new();
        let shared: &'static Vec<(String, Case)> = Box::leak(Box::new(lines.iter().map(|l| { let (i, c) = parse_line(l); (i.to_string(), c) }).collect()));
        for _ in 0..threads {
            hs.push(std::thread::spawn(move || {
                shared.iter().map(|(_, c)| { let mut o = String::new(); exec(c, &mut o); o }).collect::<Vec<_>>()
            }));
        }
        let rs: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        for r in &rs {
            if r != &rs[0] {
                println!("MISMATCH\tthreads disagree");
            }
        }
        println!("END\t{}\t{}", lines.len() * threads, rs.len());
        return;
    }
    // [from] skips cases already done, [secs] stops in time for the leak check at exit
    let from: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let secs: u64 = args.get(4).map_or(u64::MAX, |s| s.parse().unwrap());
    let t0 = std::time::Instant::now();
    let mut out = String::new();
    let mut done = 0;
    for l in lines.iter().skip(from) {
        if secs != u64::MAX && t0.elapsed().as_secs() >= secs { break; }
        done += 1;
        out.clear();
        println!("START\t{}", l.split('\t').next().unwrap());
        run_one(l, &mut out);
        println!("{}", out);
    }
    println!("END\t{}\t0", done);
}
