mod exec;
mod ir;
mod mem;
mod term;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn ins(v: &[(u32, u64)]) -> String {
    let mut s = String::from("[");
    for (i, (w, x)) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "[{},{}]", w, x);
    }
    s.push(']');
    s
}
fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    s
}

struct Job {
    harness: String,
    params: Vec<u64>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symx IR JOBS OUT [--threads N] [--deadline S] [--job-secs S] [--steps N] [--depth N] [--samples N] [--max-viol N] [--exact]");
        std::process::exit(2);
    }
    let opt = |n: &str, d: u64| -> u64 { args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d) };
    let exact = args.iter().any(|a| a == "--exact");
    let threads = opt("--threads", 8) as usize;
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(opt("--deadline", 600));
    let job_secs = opt("--job-secs", 600);
    let steps = opt("--steps", 50_000_000);
    let depth = opt("--depth", 400) as usize;
    let samples = opt("--samples", 3) as usize;
    let max_viol = opt("--max-viol", 1) as usize;
    let m: &'static ir::Module = match ir::Module::load(&args[1]) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("cannot load IR: {}", e);
            std::process::exit(2);
        }
    };
    let gobjs: &'static [mem::Obj] = Box::leak(Engine::make_globals(m).into_boxed_slice());
    let mut jobs: Vec<Job> = vec![];
    for l in std::fs::read_to_string(&args[2]).expect("jobs").lines() {
        let mut it = l.split_whitespace();
        if let Some(h) = it.next() {
            jobs.push(Job { harness: h.to_string(), params: it.map(|x| x.parse().expect("param")).collect() });
        }
    }
    // several processes share one job list by claiming numbers in a directory (z3 scales badly across threads)
    let claim: Option<String> = args.iter().position(|a| a == "--claim").and_then(|i| args.get(i + 1)).cloned();
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    // once a violation is known the remaining work gets a short grace period
    let grace = AtomicU64::new(u64::MAX);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let lim = Limits { steps, depth, deadline, max_viol, exact, samples };
                    let mut e = Engine::new(m, gobjs, lim, vec![]);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= jobs.len() || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some(d) = &claim {
                            if std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{}/{}", d, i)).is_err() {
                                continue;
                            }
                            if let Ok(md) = std::fs::metadata(format!("{}/violation", d)) {
                                let age = md.modified().ok().and_then(|m| m.elapsed().ok()).unwrap_or_default().as_secs();
                                grace.fetch_min((t0.elapsed().as_millis() as u64 + 15000).saturating_sub(age * 1000), Ordering::SeqCst);
                            }
                        }
                        let j = &jobs[i];
                        let js = Instant::now();
                        let g = grace.load(Ordering::SeqCst);
                        let gd = if g == u64::MAX { deadline } else { t0 + Duration::from_millis(g) };
                        e.lim.deadline = deadline.min(js + Duration::from_secs(job_secs)).min(gd);
                        if js >= e.lim.deadline {
                            out.lock().unwrap().push((i, format!("{{\"job\":{},\"harness\":\"{}\",\"params\":{},\"skipped\":true}}", i, j.harness, nums(&j.params))));
                            continue;
                        }
                        // trees of tens of thousands of entries take longer paths
                        e.lim.steps = if j.harness.contains("huge") { steps.saturating_mul(200) } else { steps };
                        e.reset(j.params.clone());
                        let (q0, s0, u0, z0) = (e.z.queries, e.z.sat, e.z.unsat, e.z.time);
                        let i0 = (e.z.int_queries, e.z.cross);
                        let r = e.run_harness(&j.harness);
                        let (q0, s0, u0, z0) = if e.z.queries < q0 { (0, 0, 0, Duration::ZERO) } else { (q0, s0, u0, z0) };
                        if std::env::var("SYMX_PROGRESS").is_ok() {
                            eprintln!("job {} {} {:?}: {} paths {:.1}s", i, j.harness, j.params, e.rep.paths, js.elapsed().as_secs_f64());
                        }
                        let p = &e.rep;
                        let mut s = String::new();
                        let _ = write!(s, "{{\"job\":{},\"harness\":\"{}\",\"params\":{}", i, j.harness, nums(&j.params));
                        if let Err(er) = r {
                            let _ = write!(s, ",\"error\":\"{}\"", esc(&er));
                        }
                        let _ = write!(
                            s,
                            ",\"paths\":{},\"infeasible\":{},\"panic_paths\":{},\"forks\":{},\"instrs\":{},\"checks_concrete\":{},\"checks_solver\":{},\"decided_model\":{},\"decided_interval\":{},\"confirmed\":{},\"undef_queries\":{},\"max_inputs\":{},\"left\":{}",
                            p.paths, p.infeasible, p.panic_paths, p.forks, p.instrs, p.checks_concrete, p.checks_solver, p.decided_model, p.decided_interval, p.confirmed, p.undef_queries, p.max_inputs, p.left
                        );
                        let _ = write!(
                            s,
                            ",\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_ms\":{},\"int_queries\":{},\"cross\":{},\"ms\":{}",
                            e.z.queries - q0,
                            e.z.sat - s0,
                            e.z.unsat - u0,
                            (e.z.time - z0).as_millis(),
                            e.z.int_queries - i0.0.min(e.z.int_queries),
                            e.z.cross - i0.1.min(e.z.cross),
                            js.elapsed().as_millis()
                        );
                        s.push_str(",\"incomplete\":{");
                        for (k, (a, b)) in p.incomplete.iter().enumerate() {
                            let _ = write!(s, "{}\"{}\":{}", if k > 0 { "," } else { "" }, esc(a), b);
                        }
                        s.push_str("},\"covers\":{");
                        for (k, (a, b)) in p.covers.iter().enumerate() {
                            let _ = write!(s, "{}\"{}\":{}", if k > 0 { "," } else { "" }, a, b);
                        }
                        s.push_str("},\"checks\":{");
                        for (k, (a, b)) in p.checks_seen.iter().enumerate() {
                            let _ = write!(s, "{}\"{}\":{}", if k > 0 { "," } else { "" }, a, b);
                        }
                        s.push_str("},\"funcs\":[");
                        for (k, f) in e.functions_seen().iter().enumerate() {
                            let _ = write!(s, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(f));
                        }
                        s.push_str("],\"samples\":[");
                        for (k, x) in p.samples.iter().enumerate() {
                            let _ = write!(s, "{}{{\"inputs\":{},\"obs\":{},\"panicked\":{}}}", if k > 0 { "," } else { "" }, ins(&x.inputs), nums(&x.obs), x.panicked);
                        }
                        s.push_str("],\"violations\":[");
                        for (k, x) in p.violations.iter().enumerate() {
                            let st: Vec<String> = x.stack.iter().map(|f| format!("\"{}\"", esc(f))).collect();
                            let _ = write!(
                                s,
                                "{}{{\"kind\":\"{}\",\"msg\":\"{}\",\"inputs\":{},\"sched\":{},\"stack\":[{}]}}",
                                if k > 0 { "," } else { "" },
                                x.kind,
                                esc(&x.msg),
                                ins(&x.inputs),
                                nums(&x.sched),
                                st.join(",")
                            );
                        }
                        s.push_str("]}");
                        if !p.violations.is_empty() {
                            let g = (t0.elapsed() + Duration::from_secs(15)).as_millis() as u64;
                            grace.fetch_min(g, Ordering::SeqCst);
                            if let Some(d) = &claim {
                                let _ = std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{}/violation", d));
                            }
                        }
                        out.lock().unwrap().push((i, s));
                    }
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    let mut s = String::new();
    for (_, l) in v {
        s.push_str(&l);
        s.push('\n');
    }
    std::fs::write(&args[3], s).expect("write output");
    println!("{:.2}s", t0.elapsed().as_secs_f64());
}
