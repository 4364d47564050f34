//! Reads jobs (one JSON object per line), runs them in threads, writes their results.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Runs `f`, turning a panic into an error carrying its message
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn main(dispatch: fn(&J) -> J) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
    let args: Vec<String> = std::env::args().collect();
    let jobs: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap())
        .lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
    let n: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(8);
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap())));
    let handles: Vec<_> = (0..n).map(|_| {
        let (jobs, next, out) = (jobs.clone(), next.clone(), out.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= jobs.len() { break; }
            let job: J = serde_json::from_str(&jobs[i]).unwrap();
            let mut r = guard(|| dispatch(&job)).unwrap_or_else(|p| json!({"error": "panic", "err": p}));
            r["id"] = job["id"].clone();
            let mut o = out.lock().unwrap();
            writeln!(o, "{}", r).unwrap();
        }).unwrap()
    }).collect();
    handles.into_iter().for_each(|h| h.join().unwrap());
    out.lock().unwrap().flush().unwrap();
}
