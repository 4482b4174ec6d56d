//! S05: the C interface. Objects belong to the caller until they are given up, results are those
//! of the library, and nothing is leaked, freed twice or used after it was freed.
use crate::names::POOL;
use geqslib::ffi::*;
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use geqslib::solve_equation_with_context;
use geqslib::system::{ConstrainResult, SystemBuilder};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_void, CStr, CString};
use vmon::alloc::held;
use vmon::{Ctx, Rng};

/// What each object should be, kept on the side.
#[derive(Clone)]
struct Shadow {
    ctx: ContextHashMap,
    eqs: Vec<String>,
    vars: BTreeSet<String>,
}

fn twin(s: &Shadow) -> Option<SystemBuilder> {
    let mut b = SystemBuilder::new(&s.eqs[0], copy(&s.ctx)).ok()?;
    for e in &s.eqs[1..] {
        if b.try_constrain_with(e).ok()? != ConstrainResult::WillConstrain {
            return None;
        }
    }
    Some(b)
}

fn copy(ctx: &ContextHashMap) -> ContextHashMap {
    // Contexts here hold constants and functions only, which do not share state
    ctx.clone()
}

unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

fn parse(s: &str) -> Option<BTreeMap<String, f64>> {
    let mut m = BTreeMap::new();
    for line in s.lines() {
        let (k, v) = line.split_once('=')?;
        if m.insert(k.to_string(), v.parse().ok()?).is_some() {
            return None;
        }
    }
    Some(m)
}

const EQUATIONS: [&str; 26] = ["x + y = 9", "x - y = 4", "2 * x + k = 7", "x ^ 2 = 4", "y = k * x", "z + y = x", "z = 3",
    "3 = 3", "x + = 4", "(y = 2", "x = = 2", "z ^ 2 + x = 12", "k = 4", "sin(x) = 0.5", "x * y * z = 6", "a + b = 3", "x", "",
    "x / 0 = 3", "2 x = 4", "a = k", "b - a = 1", "x = kk + 1",
    "kk * y - pi = long_name_2", "x + long_name_2 = kk", "2 * pi = z"];

/// The same equation after many blanks, now and then.
fn lengthen(c: &mut Ctx, e: &str) -> String {
    if !c.rng.chance(0.05) {
        return e.to_string();
    }
    " ".repeat(*c.rng.pick(&[200, 300, 1100, 4100, 9000, 70_000])) + e
}

/// Limits that only differ in how many bits they need.
const GENEROUS: [u32; 6] = [255, 256, 65535, 65536, 1 << 24, u32::MAX];

pub fn case(c: &mut Ctx) {
    let start = c.rng.clone();
    let (log, verdicts, mut kept) = measured(&start, c.thorough);
    // Caches of the libraries grow now and then; a leak is there every time.
    for _ in 0..6 {
        if kept == (0, 0) {
            break;
        }
        c.count("replays");
        kept = measured(&start, c.thorough).2;
    }
    let fine = verdicts.iter().all(|v| v.0);
    for (ok, sig, detail) in verdicts {
        c.check(ok, sig, || detail);
    }
    if fine {
        c.check(kept == (0, 0), "leak", || format!("{log}: {} bytes in {} blocks are not given back", kept.0, kept.1));
    }
    c.add("calls", log.matches('(').count() as u64);
    c.seen(&log);
    c.sample("history", || log);
}

/// One history, and the bytes and blocks that it did not give back.
fn measured(start: &Rng, thorough: bool) -> (String, Verdicts, (i64, i64)) {
    let mut side = Ctx::detached(start.clone());
    let mut log = String::with_capacity(1 << 14);
    let mut v: Verdicts = Vec::with_capacity(1 << 12);
    let (caps, before) = ((log.capacity(), v.capacity()), held());
    unsafe { play(&mut side, thorough, &mut log, &mut v) };
    let after = held();
    let kept = if (log.capacity(), v.capacity()) == caps && v.iter().all(|x| x.0) {
        (after.0 - before.0, after.1 - before.1)
    } else {
        (0, 0)
    };
    (log, v, kept)
}

type Verdicts = Vec<(bool, &'static str, String)>;

unsafe fn play(c: &mut Ctx, thorough: bool, log: &mut String, v: &mut Verdicts) {
    let mut ctxs: Vec<(*mut c_void, ContextHashMap)> = vec![];
    let mut builders: Vec<(*mut c_void, Option<Shadow>)> = vec![];
    let mut systems: Vec<(*mut c_void, Shadow, Vec<(String, f64, f64, f64)>)> = vec![];
    let mut strings: Vec<(*mut c_char, String)> = vec![];
    let steps = if thorough { c.rng.us(5, 60) } else { c.rng.us(5, 25) };
    macro_rules! judge {
        ($ok:expr, $sig:expr, $($t:tt)*) => {{
            let ok = $ok;
            v.push((ok, $sig, if ok { String::new() } else { format!("{log}: {}", format!($($t)*)) }));
        }};
    }
    for _ in 0..steps {
        let what = c.rng.below(14);
        match what {
            0 | 1 if ctxs.len() < 3 => {
                let default = c.rng.chance(0.7);
                *log += if default { " default-context" } else { " empty-context" };
                let p = if default { new_default_context_hash_map() } else { new_context_hash_map() };
                judge!(!p.is_null(), "null-context", "");
                ctxs.push((p, if default { new_context() } else { ContextHashMap::new() }));
            }
            2 if !ctxs.is_empty() => {
                let i = c.rng.below(ctxs.len());
                let n = *c.rng.pick(&["k", "k", "q", "a", "kk", "kk", "long_name_2", "pi", "sin"]);
                let x = c.rng.range(-5, 9) as f64;
                *log += &format!(" const({i},{n}={x})");
                let s = CString::new(n).unwrap();
                add_const_to_ctx(ctxs[i].0, s.as_ptr(), x);
                ctxs[i].1.add_const_to_ctx(n, x);
            }
            3 | 4 if !ctxs.is_empty() => {
                let i = c.rng.below(ctxs.len());
                let e = *c.rng.pick(&EQUATIONS);
                let g = c.rng.f(-5.0, 5.0);
                let (lo, hi) = *c.rng.pick(&[(f64::NEG_INFINITY, f64::INFINITY), (0.0, 100.0), (-3.0, 3.0)]);
                let limit = *c.rng.pick(&[0, 1, 30]);
                // What is solved within 30 steps is so within more
                let generous = c.rng.chance(0.2)
                    && solve_equation_with_context(e, &mut copy(&ctxs[i].1), g, lo, hi, 1e-4, 30).is_ok();
                let limit = if generous { *c.rng.pick(&GENEROUS) } else { limit };
                *log += &format!(" solve({i},{e:?},{g},{lo},{hi},{limit})");
                let s = CString::new(lengthen(c, e)).unwrap();
                let p = solve_equation(s.as_ptr(), ctxs[i].0, g, lo, hi, 1e-4, limit);
                let mut twin = copy(&ctxs[i].1);
                let want = solve_equation_with_context(e, &mut twin, g, lo, hi, 1e-4, limit as usize).ok();
                judge!(p.is_null() == want.is_none(), "solve-null", "null: {}, expected {want:?}", p.is_null());
                if !p.is_null() {
                    let t = text(p);
                    let got = parse(&t);
                    if let Some((n, x)) = want {
                        judge!(got.as_ref().is_some_and(|m| m.len() == 1 && m.get(&n).is_some_and(|y| (y - x).abs() <= 1e-9 * (1.0 + x.abs()))),
                            "solve-text", "{t:?}, expected {n}={x}");
                    }
                    strings.push((p as *mut c_char, t));
                }
            }
            5 | 6 if !ctxs.is_empty() && builders.len() < 4 => {
                let i = c.rng.below(ctxs.len());
                let e = *c.rng.pick(&EQUATIONS);
                *log += &format!(" builder({i},{e:?})");
                let s = CString::new(lengthen(c, e)).unwrap();
                let p = new_system_builder(s.as_ptr(), ctxs[i].0) as *mut c_void;
                let want = SystemBuilder::new(e, copy(&ctxs[i].1)).ok();
                judge!(p.is_null() == want.is_none(), "builder-null", "null: {}, expected: {}", p.is_null(), want.is_none());
                if !p.is_null() {
                    let vars = want.map(|b| b.get_vars().iter().cloned().collect()).unwrap_or_default();
                    builders.push((p, Some(Shadow { ctx: copy(&ctxs[i].1), eqs: vec![e.to_string()], vars })));
                }
            }
            7..=9 if !builders.is_empty() => {
                let i = c.rng.below(builders.len());
                let e = *c.rng.pick(&EQUATIONS);
                let pb = builders[i].0;
                let Some(sh) = builders[i].1.as_mut() else { continue };
                *log += &format!(" add({i},{e:?})");
                let s = CString::new(lengthen(c, e)).unwrap();
                let got = try_constrain_with(pb, s.as_ptr());
                let want = match twin(sh) {
                    Some(mut t) => {
                        let r = match t.try_constrain_with(e) {
                            Ok(ConstrainResult::WillConstrain) => 1,
                            Ok(ConstrainResult::WillNotConstrain) => 0,
                            Ok(ConstrainResult::WillOverConstrain) => 2,
                            Err(_) => -1,
                        };
                        if r == 1 {
                            sh.eqs.push(e.to_string());
                            sh.vars = t.get_vars().iter().cloned().collect();
                        }
                        r
                    }
                    None => got,
                };
                judge!(got == want, "constrain-code", "{got}, expected {want}");
                let full = is_fully_constrained(pb);
                judge!(full == (sh.eqs.len() == sh.vars.len()) as i32, "full-code", "{full} with {:?} in {:?}", sh.vars, sh.eqs);
            }
            10 if !builders.is_empty() => {
                let i = c.rng.below(builders.len());
                *log += &format!(" build({i})");
                let p = build_system(builders[i].0) as *mut c_void;
                match builders[i].1.clone() {
                    Some(sh) => {
                        let full = sh.eqs.len() == sh.vars.len();
                        judge!(p.is_null() != full, "build-null", "null: {}, fully constrained: {full}", p.is_null());
                        if !p.is_null() {
                            systems.push((p, sh, vec![]));
                            // The builder gave its equations away, but is still the caller's
                            builders[i].1 = None;
                        }
                    }
                    None => {
                        // What a spent builder builds is open; it is the caller's all the same
                        if !p.is_null() {
                            free_system(p);
                        }
                    }
                }
            }
            11 if !systems.is_empty() => {
                let i = c.rng.below(systems.len());
                let n = if c.rng.chance(0.7) {
                    let names: Vec<String> = systems[i].1.vars.iter().cloned().collect();
                    c.rng.pick(&names).clone()
                } else {
                    c.rng.pick(&POOL).to_string()
                };
                let (g, lo, hi) = (c.rng.range(-4, 9) as f64, *c.rng.pick(&[-1e6, 0.0, -10.0]), *c.rng.pick(&[1e6, 12.0]));
                *log += &format!(" specify({i},{n},{g},{lo},{hi})");
                let s = CString::new(n.as_str()).unwrap();
                let got = specify_variable(systems[i].0, s.as_ptr(), g, lo, hi);
                let want = if systems[i].1.vars.contains(&n) { 1 } else { -1 };
                judge!(got == want, "specify-code", "{got}, expected {want}");
                if got == 1 {
                    systems[i].2.push((n, g, lo, hi));
                }
            }
            12 if !systems.is_empty() => {
                let i = c.rng.below(systems.len());
                let (p, sh, spec) = systems.remove(i);
                let margin = *c.rng.pick(&[1e-4, 1e-4, 1e-4, 1e-8, 1e-2, 0.0, -1.0, -1e-300, f64::NAN]);
                let usable = margin > 0.0;
                let small = *c.rng.pick(&[40, 40, 40, 40, 0]);
                let linear = sh.eqs.iter().all(|e| !e.contains('^') && !e.contains("sin") && !e.contains("* z") && !e.contains("y *"));
                let again = || twin(&sh).and_then(|b| b.build_system()).map(|mut t| {
                    for (n, g, lo, hi) in &spec {
                        t.specify_variable(n, *g, *lo, *hi);
                    }
                    t
                });
                let limit = if small == 40 && usable && linear && spec.is_empty() && c.rng.chance(0.3)
                    && again().is_some_and(|t| t.solve(margin, 40).is_ok()) { *c.rng.pick(&GENEROUS) } else { small };
                *log += &format!(" solve-system({i},{margin},{limit})");
                let s = solve_system(p, margin, limit);
                judge!(s.is_null() || (usable && limit > 0), "unusable-settings", "answers");
                if let Some(t) = again() {
                    let want = t.solve(margin, limit as usize).ok();
                    judge!(!linear || !spec.is_empty() || s.is_null() == want.is_none(), "solution-null", "null: {}, expected {want:?}", s.is_null());
                    // Where the method fails narrowly, the order of the unknowns may decide
                    if !s.is_null() {
                        let t = text(s);
                        let got = parse(&t);
                        judge!(got.as_ref().is_some_and(|m| m.keys().cloned().collect::<BTreeSet<_>>() == sh.vars), "solution-text", "{t:?}");
                        if let (Some(m), Some(w)) = (&got, &want) {
                            let near = m.iter().all(|(k, x)| w.get(k).is_some_and(|y| (x - y).abs() <= 10.0 * margin + 1e-8));
                            judge!(!linear || near, "solution-values", "{m:?}, expected {w:?}");
                            // With one unknown, there is no order that could make a difference
                            judge!(m.len() != 1 || m.iter().all(|(k, x)| w.get(k) == Some(x)), "solution-value", "{m:?}, expected {w:?}");
                        }
                    }
                }
                if !s.is_null() {
                    strings.push((s as *mut c_char, text(s)));
                }
            }
            13 => {
                match c.rng.below(4) {
                    0 if !ctxs.is_empty() => {
                        let i = c.rng.below(ctxs.len());
                        *log += &format!(" free-context({i})");
                        free_context_hash_map(ctxs.remove(i).0);
                    }
                    1 if !builders.is_empty() => {
                        let i = c.rng.below(builders.len());
                        *log += &format!(" free-builder({i})");
                        free_system_builder(builders.remove(i).0);
                    }
                    2 if !systems.is_empty() => {
                        let i = c.rng.below(systems.len());
                        *log += &format!(" free-system({i})");
                        free_system(systems.remove(i).0);
                    }
                    3 if !strings.is_empty() => {
                        let i = c.rng.below(strings.len());
                        let (p, t) = strings.remove(i);
                        *log += " free-string";
                        judge!(text(p) == t, "string-changed", "{:?} was {t:?}", text(p));
                        free_solution_string(p);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if v.last().is_some_and(|x| !x.0) {
            break;
        }
    }
    // Strings stay what they were until they are freed
    for (p, t) in strings {
        judge!(text(p) == t, "string-changed", "{:?} was {t:?}", text(p));
        free_solution_string(p);
    }
    for s in systems {
        free_system(s.0);
    }
    for b in builders {
        free_system_builder(b.0);
    }
    for x in ctxs {
        free_context_hash_map(x.0);
    }
}
