//! R01: what one call does leaves nothing behind for others, in the same thread or in another.
mod jobs;

use jobs::{Job, Want};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use vmon::{Ctx, Rng};

fn main() {
    let o = vmon::Options::parse();
    match o.prop.as_str() {
        "R01" => vmon::run(&o, case),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(95);
        }
    }
}

/// What is wrong with an answer.
fn wrong(want: &Want, got: &Result<Result<Vec<(String, f64)>, String>, ()>) -> Option<String> {
    match (want, got) {
        (Want::Anything, _) => None,
        (_, Err(())) => Some("it panicked".into()),
        (Want::Error, Ok(Err(_))) => None,
        (Want::Error, Ok(Ok(v))) => Some(format!("it gave {v:?}, but it has no answer")),
        (Want::Values(w, tol), Ok(Ok(v))) => {
            let same = w.iter().all(|(k, x)| v.iter().any(|(n, y)| n == k && (x == y || (x - y).abs() <= *tol || (x.is_nan() && y.is_nan()))));
            if same { None } else { Some(format!("it gave {v:?}, expected {w:?}")) }
        }
        (Want::Values(w, _), Ok(Err(e))) => Some(format!("it failed ({e}), expected {w:?}")),
    }
}

fn case(c: &mut Ctx) {
    let pool = Arc::new(jobs::pool(c));
    let threads = if c.rng.chance(0.3) { 1 } else { c.rng.us(2, 4) };
    let length = c.rng.us(4, 14);
    let barrier = Arc::new(Barrier::new(threads));
    let busy = Arc::new(AtomicUsize::new(0));
    let together = Arc::new(AtomicU64::new(0));
    let repeated = Arc::new(AtomicU64::new(0));
    let mut handles = vec![];
    for _ in 0..threads {
        let (pool, barrier, busy, together) = (pool.clone(), barrier.clone(), busy.clone(), together.clone());
        let again = repeated.clone();
        let mut rng = Rng::new(c.rng.next());
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let mut history: Vec<usize> = vec![];
            let mut bad: Vec<(String, String)> = vec![];
            barrier.wait();
            for _ in 0..length {
                // The same again right away, now and then
                let i = match history.last() {
                    Some(l) if rng.chance(0.15) => *l,
                    _ => rng.below(pool.len()),
                };
                let job: &Job = &pool[i];
                history.push(i);
                if busy.fetch_add(1, Ordering::Relaxed) > 0 {
                    together.fetch_add(1, Ordering::Relaxed);
                }
                let mut got = catch_unwind(AssertUnwindSafe(|| (job.run)())).map_err(|_| ());
                // Again and again, so that calls of different threads meet in the middle
                for _ in 0..*rng.pick(&[0, 0, 3, 20]) {
                    if threads == 1 || job.kind == "long histories" || wrong(&job.want, &got).is_some() {
                        break;
                    }
                    again.fetch_add(1, Ordering::Relaxed);
                    got = catch_unwind(AssertUnwindSafe(|| (job.run)())).map_err(|_| ());
                }
                busy.fetch_sub(1, Ordering::Relaxed);
                if let Some(why) = wrong(&job.want, &got) {
                    let before: Vec<&str> = history.iter().map(|h| pool[*h].label.as_str()).collect();
                    bad.push((job.kind.to_string(), format!("{}: {why}, after {before:?}", job.label)));
                    break;
                }
                match rng.below(6) {
                    0 => std::thread::yield_now(),
                    1 => std::thread::sleep(std::time::Duration::from_micros(20)),
                    _ => {}
                }
            }
            (history, bad)
        });
        handles.push(h.expect("spawn"));
    }
    let mut order = vec![];
    for h in handles {
        let Ok((history, bad)) = h.join() else { return c.fail("thread", "a thread did not end".into()) };
        for i in &history {
            c.eval();
            c.count(pool[*i].kind);
        }
        for (kind, detail) in bad {
            c.fail(&kind, format!("{threads} threads: {detail}"));
        }
        order.push(history);
    }
    c.add("calls beside other calls", together.load(Ordering::Relaxed));
    c.add("calls again", repeated.load(Ordering::Relaxed));
    c.count(if threads == 1 { "one thread" } else { "several threads" });
    c.seen(&order);
    c.sample("jobs", || format!("{threads} threads, {length} calls each of {:?}", pool.iter().map(|j| &j.label).collect::<Vec<_>>()));
}
