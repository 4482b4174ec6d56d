//! Shared machinery of the monitors: seeded randomness, the case runner, the
//! record of what was observed and the verdicts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

pub mod alloc;
pub mod expr;

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0 <= x < n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    /// lo <= x <= hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

// ------------------------------------------------- calling the code under test

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs code under test. A panic of that code is an outcome for the oracle to judge.
pub fn cut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Runs code under test on a stack of 1 MiB, where what needs stack for every step does not last.
pub fn cut_small<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || cut(f)).expect("spawn").join().expect("join")
    })
}

/// Runs a tool of the code under test, without letting it run for ever.
pub fn run_tool(cmd: &mut std::process::Command) -> Result<(Option<i32>, String, String), String> {
    use std::io::Read;
    use std::process::Stdio;
    let mut child = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("{cmd:?}: {e}"))?;
    let (mut out, mut err) = (child.stdout.take(), child.stderr.take());
    let begin = Instant::now();
    std::thread::scope(|s| {
        let read = |p: &mut dyn Read| {
            let mut b = vec![];
            let _ = p.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        };
        let err = s.spawn(move || err.as_mut().map(|p| read(p)).unwrap_or_default());
        let out = s.spawn(move || out.as_mut().map(|p| read(p)).unwrap_or_default());
        let mut pause = 200;
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Ok(s.code()),
                _ if begin.elapsed() > Duration::from_secs(30) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break Err("it does not end".to_string());
                }
                _ => std::thread::sleep(Duration::from_micros(pause)),
            }
            pause = (pause * 5 / 4).min(20_000);
        };
        let (out, err) = (out.join().unwrap_or_default(), err.join().unwrap_or_default());
        Ok((status?, out, err))
    })
}

/// Forgets the message of the last panic, so that it does not count as memory held.
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

// ------------------------------------------------------------------- one case

#[derive(Clone)]
pub struct Failure {
    pub sig: String,
    pub detail: String,
    pub case: u64,
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    seen: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_kinds: BTreeMap<String, u32>,
    failures: Vec<Failure>,
}

pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    pub thorough: bool,
    pub scratch: String,
    tally: Tally,
}

impl Ctx {
    /// A context whose record is thrown away.
    pub fn detached(rng: Rng) -> Ctx {
        Ctx { rng, case: 0, thorough: false, scratch: String::new(), tally: Tally::default() }
    }
    /// One observation was judged by the oracle.
    pub fn eval(&mut self) {
        self.tally.evaluations += 1;
    }
    /// Something non-trivial that was observed; only distinct keys count.
    pub fn seen<H: Hash + ?Sized>(&mut self, key: &H) {
        let h = hash_of(key);
        self.tally.seen.insert(h);
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.tally.counts.get_mut(name) {
            *c += n;
        } else {
            self.tally.counts.insert(name.to_string(), n);
        }
    }
    /// Keeps an example of what was observed (a few per kind).
    pub fn sample(&mut self, kind: &str, text: impl FnOnce() -> String) {
        let n = self.tally.sample_kinds.entry(kind.to_string()).or_insert(0);
        if *n < 2 {
            *n += 1;
            self.tally.samples.push(format!("{kind}: {}", text()));
        }
    }
    pub fn fail(&mut self, sig: &str, detail: String) {
        if self.tally.failures.len() < 20 {
            let case = self.case;
            self.tally.failures.push(Failure { sig: sig.to_string(), detail, case });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.eval();
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        !self.tally.failures.is_empty()
    }
}

// ------------------------------------------------------------------ the runner

pub struct Options {
    pub prop: String,
    pub seed: u64,
    pub cases: u64,
    pub seconds: u64,
    pub threads: usize,
    pub only: Option<u64>,
    pub thorough: bool,
    pub out: String,
    pub scratch: String,
    pub hang: u64,
}

impl Options {
    pub fn parse() -> Options {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
        let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
        Options {
            prop: a.get(1).cloned().unwrap_or_default(),
            seed: num("--seed", 1),
            cases: num("--cases", 1000),
            seconds: num("--seconds", 600),
            threads: num("--threads", 8) as usize,
            only: get("--only").and_then(|v| v.parse().ok()),
            thorough: a.iter().any(|x| x == "--thorough"),
            out: get("--out").unwrap_or_else(|| "/dev/stdout".into()),
            scratch: get("--scratch").unwrap_or_else(|| "/tmp".into()),
            hang: num("--hang", 30),
        }
    }
}

fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}

/// Runs cases 0..cases of a monitor on several threads and writes what was observed.
pub fn run(o: &Options, f: fn(&mut Ctx)) {
    silence_panics();
    let total: Arc<Mutex<Tally>> = Default::default();
    let next = Arc::new(AtomicU64::new(o.only.unwrap_or(0)));
    let end = o.only.map(|i| i + 1).unwrap_or(o.cases);
    let threads = if o.only.is_some() { 1 } else { o.threads };
    let started: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let live = Arc::new(AtomicUsize::new(threads));
    let harness_errors: Arc<Mutex<Vec<String>>> = Default::default();
    let begin = Instant::now();
    let deadline = begin + Duration::from_secs(o.seconds);
    let progress = Arc::new(File::create(format!("{}/progress", o.scratch)).expect("progress file"));
    let done = Arc::new(AtomicU64::new(0));

    let mut handles = vec![];
    for t in 0..threads {
        let (total, next, started, live, errs, progress, done) = (
            total.clone(), next.clone(), started.clone(), live.clone(),
            harness_errors.clone(), progress.clone(), done.clone(),
        );
        let (seed, prop, thorough, scratch) = (o.seed, o.prop.clone(), o.thorough, o.scratch.clone());
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut local = Tally::default();
            loop {
                if Instant::now() >= deadline {
                    break;
                }
                let case = next.fetch_add(1, Ordering::Relaxed);
                if case >= end {
                    break;
                }
                started[t].1.store(case, Ordering::Relaxed);
                started[t].0.store(now_ms(), Ordering::Relaxed);
                let _ = progress.write_all_at(&(case + 1).to_le_bytes(), (t * 8) as u64);
                let mut ctx = Ctx {
                    rng: Rng::new(hash_of(&(seed, prop.as_str(), case))),
                    case,
                    thorough,
                    scratch: scratch.clone(),
                    tally: std::mem::take(&mut local),
                };
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
                local = ctx.tally;
                if r.is_err() {
                    let msg = LAST_PANIC.with(|p| p.borrow().clone());
                    errs.lock().unwrap().push(format!("case {case}: {msg}"));
                }
                started[t].0.store(0, Ordering::Relaxed);
                done.fetch_add(1, Ordering::Relaxed);
                if local.failures.len() >= 20 {
                    break;
                }
            }
            let _ = progress.write_all_at(&0u64.to_le_bytes(), (t * 8) as u64);
            let mut g = total.lock().unwrap();
            g.evaluations += local.evaluations;
            g.seen.extend(local.seen);
            for (k, v) in local.counts {
                *g.counts.entry(k).or_insert(0) += v;
            }
            if g.samples.len() < 8 {
                for s in local.samples {
                    if g.samples.len() < 8 && !g.samples.contains(&s) {
                        g.samples.push(s);
                    }
                }
            }
            g.failures.extend(local.failures);
            live.fetch_sub(1, Ordering::SeqCst);
        });
        handles.push(h.expect("spawn"));
    }

    // A single case takes milliseconds. One that takes this long does not come back.
    while live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        for s in started.iter() {
            let at = s.0.load(Ordering::Relaxed);
            if at != 0 && now_ms() > at + o.hang * 1000 {
                eprintln!("HANG case={}", s.1.load(Ordering::Relaxed));
                std::process::exit(97);
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }

    let mut g = total.lock().unwrap();
    g.failures.sort_by(|a, b| (a.case, &a.sig).cmp(&(b.case, &b.sig)));
    let errs = harness_errors.lock().unwrap();
    let mut out = String::from("{");
    out += &format!("\"evaluations\":{},", g.evaluations);
    out += &format!("\"cases\":{},", done.load(Ordering::Relaxed));
    out += &format!("\"distinct\":{},", g.seen.len());
    out += &format!("\"counts\":{{{}}},",
        g.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    out += &format!("\"samples\":[{}],", g.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    out += &format!("\"harness_errors\":[{}],", errs.iter().take(5).map(|s| js(s)).collect::<Vec<_>>().join(","));
    out += &format!("\"failures\":[{}]",
        g.failures.iter().take(60).map(|f| format!("{{\"sig\":{},\"case\":{},\"detail\":{}}}",
            js(&f.sig), f.case, js(&f.detail))).collect::<Vec<_>>().join(","));
    out += "}\n";
    let mut file = File::create(&o.out).expect("out file");
    file.write_all(out.as_bytes()).expect("write out");
    drop(file);
    if !errs.is_empty() {
        std::process::exit(96);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- small algebra

/// Solves a dense linear system with complete pivoting. `None` if it is (nearly) singular.
pub fn solve_dense(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut m: Vec<Vec<f64>> = a.iter().zip(b).map(|(r, &x)| {
        let mut r = r.clone();
        r.push(x);
        r
    }).collect();
    let mut order: Vec<usize> = (0..n).collect();
    let scale = a.iter().flatten().fold(0.0f64, |s, x| s.max(x.abs()));
    for k in 0..n {
        let (mut pi, mut pj) = (k, k);
        for i in k..n {
            for j in k..n {
                if m[i][j].abs() > m[pi][pj].abs() {
                    (pi, pj) = (i, j);
                }
            }
        }
        if m[pi][pj].abs() <= 1e-11 * scale || m[pi][pj] == 0.0 {
            return None;
        }
        m.swap(k, pi);
        for row in m.iter_mut() {
            row.swap(k, pj);
        }
        order.swap(k, pj);
        for i in 0..n {
            if i != k {
                let s = m[i][k] / m[k][k];
                if s != 0.0 {
                    for j in k..=n {
                        let v = m[k][j];
                        m[i][j] -= s * v;
                    }
                }
            }
        }
    }
    let mut x = vec![0.0; n];
    for k in 0..n {
        x[order[k]] = m[k][n] / m[k][k];
    }
    Some(x)
}

/// Inverse of a dense matrix, and its condition number in the infinity norm.
pub fn invert_dense(a: &[Vec<f64>]) -> Option<(Vec<Vec<f64>>, f64)> {
    let n = a.len();
    let mut inv = vec![vec![0.0; n]; n];
    for j in 0..n {
        let mut e = vec![0.0; n];
        e[j] = 1.0;
        let col = solve_dense(a, &e)?;
        for i in 0..n {
            inv[i][j] = col[i];
        }
    }
    let norm = |m: &[Vec<f64>]| m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0f64, f64::max);
    let k = norm(a) * norm(&inv);
    Some((inv, k))
}
