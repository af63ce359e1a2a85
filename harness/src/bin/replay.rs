//! replay HARNESS PARAMS INPUTS      (comma-separated numbers; "-" for none)
use std::sync::atomic::Ordering::SeqCst;
use vharness::sym::native::*;

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter_map(|x| x.parse().ok()).collect() };
    let f = match vharness::NAMES.iter().find(|n| n.0 == a[1]) {
        Some(f) => f.1,
        None => {
            println!("REPLAY-INVALID unknown harness");
            std::process::exit(99)
        }
    };
    unsafe {
        PARAMS = nums(&a[2]);
        INPUTS = nums(&a[3]);
        OBS.reserve(1 << 16);
    }
    // std's lazily allocated state must not count as a leak
    let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(())));
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("panic at {}: {}", l, i);
    }));
    eprintln!("start");
    println!("START");
    let before = LIVE.load(SeqCst);
    let r = std::panic::catch_unwind(f);
    let panicked = r.is_err();
    if let Err(p) = r {
        std::mem::forget(p);
    }
    let after = LIVE.load(SeqCst);
    if panicked && !ALLOW_PANIC.load(SeqCst) {
        fail("panic")
    }
    if !panicked && !LEAK_OK.load(SeqCst) && after != before {
        fail(&format!("leak {}", after - before))
    }
    let o: Vec<String> = unsafe { OBS.iter().map(|x| x.to_string()).collect() };
    println!("OBS {}", o.join(","));
    println!("PANICKED {}", panicked as u8);
    println!("REPLAY-OK");
}
