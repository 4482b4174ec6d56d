//! X08: the C interface gives what the library gives, and gives back all it took.
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use nexsys::ffi;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_void, CStr, CString};
use vmon::alloc::held;
use vmon::{Ctx, Rng};

type Verdicts = Vec<(bool, &'static str, String)>;
type Declared = HashMap<String, [f64; 3]>;

/// Programs whose answers do not hang on the order in which a solver takes its unknowns.
const PLAIN: [&str; 29] = ["x = 3", "x + y = 9\nx - y = 4", "2 * x + k = 7", "y = k * x\nx = 2", "x ^ 2 = 4", "z = 3\nz + w = x\nx = 1", "x + = 4", "x = 1/0", "",
    "no equation", "3 = 3", "a + b + d = 6\na - b = 0\nb + d = 3", "x + y = 3", "sin(x) = 0.5", "k = q", "x = sqrt(2)", "x = 2 +", "(x = 3", "x^2 = -1",
    "x = 4\ny = x^2\nz = y / x", "u - 3 = v\n2 * v = 10", "x = 3\r\ny = 4", "q = 2\nr = q + k", "x + y = k\nx + y = q", "E = 1e3", "long_name_1 * 3 = 8 - long_name_1",
    "x = kk + pi", "kk + y = 3\nx - y = 2 * kk", "x + long_name_1 = kk\nx = 2 * pi"];

const RICH: [&str; 18] = ["const k = 4\nx + k = 9", "guess 3 for x\nkeep x on [0, 10]\nx^2 = 4", "guess -3 for x\nx^2 = 4", "keep x on [1, 2]\nx = 5",
    "x = 3 * [ft->m]", "x = #R * 2", "x = #nonsense", "x = [m->s]", "if 1 < 2:\n    x = 1\nelse:\n    x = 2\nend", "x = 4 // a comment \" with quotes",
    "// only\n", "if 1 =< 2:\n  x = 1\nelse:\n  x = 3\nend", "const a = )\nx = a", "x + y = 9 // é λ\nx - y = 4", "const b = 1/0", "tab\t= 3", "x = \"4\"", "x = 4\\3"];

unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// Log and solution, as they are written.
fn parse(t: &str) -> Option<(String, BTreeMap<String, f64>)> {
    let t = t.strip_prefix("{ log: ")?.strip_suffix("\" }")?;
    let (log, soln) = t.rsplit_once(", \nsoln: \"")?;
    let mut m = BTreeMap::new();
    for part in soln.split(", ").filter(|p| !p.is_empty()) {
        let (k, v) = part.split_once(": ")?;
        if m.insert(k.to_string(), v.parse().ok()?).is_some() {
            return None;
        }
    }
    Some((log.to_string(), m))
}

/// Limits that only differ in how many bits they need.
const GENEROUS: [u32; 6] = [255, 256, 65535, 65536, 1 << 24, u32::MAX];

/// The same program after many blank lines, now and then.
fn lengthen(c: &mut Ctx, t: &str) -> String {
    if !c.rng.chance(0.06) {
        return t.to_string();
    }
    "\n".repeat(*c.rng.pick(&[200, 300, 1100, 4100, 9000])) + t
}

pub fn case(c: &mut Ctx) {
    let start = c.rng.clone();
    let (log, verdicts, mut kept) = measured(&start, c.thorough);
    // Caches of the libraries grow now and then; a leak is there every time.
    for _ in 0..6 {
        if kept == (0, 0) {
            break;
        }
        c.count("replays");
        kept = measured(&start, c.thorough).2;
    }
    let fine = verdicts.iter().all(|v| v.0);
    for (ok, sig, detail) in verdicts {
        c.check(ok, sig, || detail);
    }
    if fine {
        c.check(kept == (0, 0), "leak", || format!("{log}: {} bytes in {} blocks are not given back", kept.0, kept.1));
    }
    c.add("calls", log.matches('(').count() as u64);
    c.add("answers", log.matches("->answer").count() as u64);
    c.add("no answers", log.matches("->null").count() as u64);
    c.seen(&log);
    c.sample("history", || log);
}

fn measured(start: &Rng, thorough: bool) -> (String, Verdicts, (i64, i64)) {
    vmon::forget_panic();
    let mut side = Ctx::detached(start.clone());
    let mut log = String::with_capacity(1 << 14);
    let mut v: Verdicts = Vec::with_capacity(1 << 12);
    let (caps, before) = ((log.capacity(), v.capacity()), held());
    unsafe { play(&mut side, thorough, &mut log, &mut v) };
    vmon::forget_panic();
    let after = held();
    let kept = if (log.capacity(), v.capacity()) == caps && v.iter().all(|x| x.0) {
        (after.0 - before.0, after.1 - before.1)
    } else {
        (0, 0)
    };
    (log, v, kept)
}

unsafe fn play(c: &mut Ctx, thorough: bool, log: &mut String, v: &mut Verdicts) {
    let mut ctxs: Vec<(*mut c_void, ContextHashMap)> = vec![];
    let mut maps: Vec<(*mut c_void, Declared)> = vec![];
    let mut strings: Vec<(*mut c_char, String)> = vec![];
    macro_rules! judge {
        ($ok:expr, $sig:expr, $($t:tt)*) => {{
            let ok = $ok;
            v.push((ok, $sig, if ok { String::new() } else { format!("{log}: {}", format!($($t)*)) }));
        }};
    }
    // What came back, against what the library gives
    macro_rules! result {
        ($p:expr, $want:expr) => {{
            let p: *mut c_char = $p;
            let want: Option<(Vec<String>, HashMap<String, f64>)> = $want;
            *log += if p.is_null() { "->null" } else { "->answer" };
            judge!(p.is_null() == want.is_none(), "null", "null: {}, expected {want:?}", p.is_null());
            if !p.is_null() {
                let t = text(p);
                match (parse(&t), want) {
                    (Some((_, got)), Some((steps, soln))) => {
                        let same = got.len() == soln.len() && soln.iter().all(|(k, x)| got.get(k).is_some_and(|y| (x - y).abs() <= 1e-3 || x == y));
                        judge!(same, "values", "{t:?}, expected {soln:?}");
                        judge!(steps.is_empty() || steps.iter().all(|s| s.lines().all(|l| {
                            let l = format!("{l:?}");
                            t.contains(&l[1..l.len() - 1]) || l.contains('[')|| l.contains(',')
                        })), "log", "{t:?}, expected {steps:?}");
                    }
                    (None, _) => judge!(false, "format", "{t:?}"),
                    _ => {}
                }
                strings.push((p, t));
            }
        }};
    }
    let steps = if thorough { c.rng.us(4, 50) } else { c.rng.us(4, 20) };
    for _ in 0..steps {
        match c.rng.below(11) {
            0 if ctxs.len() < 3 => {
                let default = c.rng.chance(0.8);
                *log += if default { " default-context()" } else { " empty-context()" };
                let p = if default { ffi::new_default_context_hash_map() } else { ffi::new_context_hash_map() };
                judge!(!p.is_null(), "null-context", "");
                ctxs.push((p, if default { new_context() } else { ContextHashMap::new() }));
            }
            1 if maps.len() < 3 => {
                *log += " map()";
                let p = ffi::new_declared_hash_map();
                judge!(!p.is_null(), "null-map", "");
                maps.push((p, HashMap::new()));
            }
            2 if !ctxs.is_empty() => {
                let i = c.rng.below(ctxs.len());
                let n = *c.rng.pick(&["k", "q", "a", "r", "kk", "kk", "pi", "long_name_1"]);
                let x = c.rng.range(-5, 9) as f64;
                *log += &format!(" const({i},{n}={x})");
                let s = CString::new(n).unwrap();
                ffi::add_const_to_ctx(ctxs[i].0, s.as_ptr(), x);
                ctxs[i].1.add_const_to_ctx(n, x);
            }
            3 | 4 if !maps.is_empty() => {
                let i = c.rng.below(maps.len());
                let n = *c.rng.pick(&["x", "x", "y", "z", "a", "q", "unused", "kk", "long_name_1"]);
                let g = c.rng.range(-4, 9) as f64;
                let (lo, hi) = *c.rng.pick(&[(f64::NEG_INFINITY, f64::INFINITY), (0.0, 100.0), (-3.0, 3.0)]);
                *log += &format!(" declare({i},{n},{g},{lo},{hi})");
                let s = CString::new(n).unwrap();
                let got = ffi::add_declared_variable(maps[i].0, s.as_ptr(), g, lo, hi);
                judge!(got == 1, "declare-code", "{got}");
                maps[i].1.insert(n.to_string(), [g, lo, hi]);
            }
            5..=7 if !ctxs.is_empty() && !maps.is_empty() => {
                let (i, j) = (c.rng.below(ctxs.len()), c.rng.below(maps.len()));
                let t = *c.rng.pick(&PLAIN);
                let limit = *c.rng.pick(&[0, 1, 60, 60, 60]);
                // What is solved within 60 steps is so within more
                let generous = c.rng.chance(0.15)
                    && nexsys::basic_solve(t, &mut ctxs[i].1.clone(), &mut maps[j].1.clone(), 1e-6, 60).is_ok();
                let limit = if generous { *c.rng.pick(&GENEROUS) } else { limit };
                *log += &format!(" solve({i},{j},{t:?},{limit})");
                let t = &lengthen(c, t);
                let mut bytes = t.as_bytes().to_vec();
                if c.rng.chance(0.05) {
                    bytes.extend([b'\n', 0xff, 0xc3, b'(']);
                }
                let s = CString::new(bytes).unwrap();
                let p = ffi::basic_solve(s.as_ptr(), ctxs[i].0, maps[j].0, 1e-6, limit);
                // With a step or two, it depends on the order of the unknowns what is reached
                let rust = s.to_string_lossy().into_owned();
                let want = nexsys::basic_solve(&rust, &mut ctxs[i].1, &mut maps[j].1, 1e-6, limit as usize).ok();
                result!(p, want);
            }
            8 => {
                let t = if c.rng.chance(0.6) { *c.rng.pick(&RICH) } else { *c.rng.pick(&PLAIN) };
                let limit = *c.rng.pick(&[0, 1, 60, 60, 60]);
                let generous = c.rng.chance(0.15) && nexsys::solve_with_preprocessors(t, 1e-6, 60).is_ok();
                let limit = if generous { *c.rng.pick(&GENEROUS) } else { limit };
                *log += &format!(" preprocess-and-solve({t:?},{limit})");
                let t = lengthen(c, t);
                let t = t.as_str();
                let s = CString::new(t).unwrap();
                let p = ffi::solve_with_preprocessors(s.as_ptr(), 1e-6, limit);
                let want = nexsys::solve_with_preprocessors(t, 1e-6, limit as usize).ok();
                result!(p, want);
            }
            9 if !strings.is_empty() => {
                let i = c.rng.below(strings.len());
                let (p, t) = strings.remove(i);
                *log += " free-string()";
                judge!(text(p) == t, "string-changed", "{:?} was {t:?}", text(p));
                ffi::free_solution_string(p);
            }
            10 if c.rng.chance(0.4) => {
                if c.rng.chance(0.5) && !ctxs.is_empty() {
                    let i = c.rng.below(ctxs.len());
                    *log += &format!(" free-context({i})");
                    ffi::free_context_hash_map(ctxs.remove(i).0);
                } else if !maps.is_empty() {
                    let i = c.rng.below(maps.len());
                    *log += &format!(" free-map({i})");
                    ffi::free_declared_hash_map(maps.remove(i).0);
                }
            }
            _ => {}
        }
        if v.last().is_some_and(|x| !x.0) {
            break;
        }
    }
    for (p, t) in strings {
        judge!(text(p) == t, "string-changed", "{:?} was {t:?}", text(p));
        ffi::free_solution_string(p);
    }
    for m in maps {
        ffi::free_declared_hash_map(m.0);
    }
    for x in ctxs {
        ffi::free_context_hash_map(x.0);
    }
}
