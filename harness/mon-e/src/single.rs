//! S01: the solver of one equation in one unknown.
use crate::names::POOL;
use geqslib::newton::newton_raphson;
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use std::cell::RefCell;
use std::collections::BTreeSet;
use vmon::expr::{self, eval, Env};
use vmon::{cut, cut_small, Ctx, Rng};

pub fn case(c: &mut Ctx) {
    if c.rng.chance(0.0015) {
        return patience(c);
    }
    if c.rng.chance(0.08) {
        return extreme(c);
    }
    match c.rng.below(10) {
        0..=3 => function(c),
        4..=5 => soundness(c),
        6..=8 => equation(c),
        _ => constrained(c),
    }
}

/// A function with a known root that Newton's method reaches from the guess.
struct Family {
    f: Box<dyn Fn(f64) -> f64>,
    text: String,
    root: f64,
    guess: f64,
    limit: usize,
    /// How far a root may lie from an answer, in margins
    slack: f64,
    scale: f64,
}

fn lit(v: f64) -> String {
    if v < 0.0 { format!("(-{})", -v) } else { format!("{v}") }
}

fn family(r: &mut Rng) -> Family {
    match r.below(5) {
        0 | 1 => {
            let a = r.f(0.5, 5.0) * *r.pick(&[0.001, 0.01, 0.1, 1.0, 10.0, 100.0]) * *r.pick(&[1.0, -1.0]);
            let root = r.f(-1000.0, 1000.0);
            let b = r.f(-10.0, 10.0) * a;
            let text = match r.below(4) {
                0 => format!("{} * x = {}", lit(a), lit(a * root)),
                1 => format!("{} = {} * (x - {})", lit(0.0), lit(a), lit(root)),
                2 => format!("{} * x + {} = {}", lit(a), lit(b), lit(a * root + b)),
                _ => format!("{} * x = {} * x + {}", lit(2.0 * a), lit(a), lit(a * root)),
            };
            Family { f: Box::new(move |x| a * (x - root)), text, root, guess: r.f(-1000.0, 1000.0), limit: 30, slack: 1.1,
                     scale: a.abs() * 1000.0 }
        }
        2 => {
            let root = r.f(-3.0, 3.0);
            let k = f64::exp(root);
            let text = match r.below(3) {
                0 => format!("e ^ x = {}", lit(k)),
                1 => format!("{} = e ^ x", lit(k)),
                _ => format!("e^x - {} = 0", lit(k)),
            };
            Family { f: Box::new(move |x| x.exp() - k), text, root, guess: root + r.f(0.0, 4.0), limit: 100, slack: 2.0, scale: 1e3 }
        }
        3 => {
            let s = r.f(0.5, 30.0);
            let sign = *r.pick(&[1.0, -1.0]);
            let k = s * s;
            let text = match r.below(3) {
                0 => format!("x ^ 2 = {}", lit(k)),
                1 => format!("x * x - {} = 0", lit(k)),
                _ => format!("{} = x^2 + 1", lit(k + 1.0)),
            };
            // The guess decides which of the two roots is found
            Family { f: Box::new(move |x| x * x - k), text, root: sign * s, guess: sign * r.f(0.5, 50.0), limit: 100, slack: 2.0, scale: 1e4 }
        }
        _ => {
            let root = r.f(0.3, 5.0);
            let p = r.f(0.5, 5.0);
            let k = root * root * root + p * root;
            let text = format!("x ^ 3 + {} * x = {}", lit(p), lit(k));
            Family { f: Box::new(move |x| x * x * x + p * x - k), text, root, guess: root + r.f(0.0, 10.0), limit: 100, slack: 2.0, scale: 1e4 }
        }
    }
}

/// Margins as small and as large as there are. The functions are such that their roots are met exactly.
fn extreme(c: &mut Ctx) {
    let a = *c.rng.pick(&[1.0, 2.0, 4.0, 0.5, -1.0, -8.0]);
    let root = c.rng.range(-800, 800) as f64 / 8.0;
    let guess = if c.rng.chance(0.3) { root } else { c.rng.f(-100.0, 100.0) };
    let usable = c.rng.chance(0.7);
    let m = if usable {
        *c.rng.pick(&[5e-324, f64::MIN_POSITIVE, 1e-300, 1e-100, 1e-20, 1e-16, 2e-16, 1e-13, 10.0, 1e3, 1e10, 1e300, f64::MAX, f64::INFINITY])
    } else {
        *c.rng.pick(&[0.0, -0.0, -5e-324, -1e-16, -1e-9, -1.0, -1e300, f64::NEG_INFINITY, f64::NAN])
    };
    let text = match c.rng.below(3) {
        0 => format!("{} * x = {}", lit(a), lit(a * root)),
        1 => format!("0 = (x - {}) * {}", lit(root), lit(a)),
        _ => format!("{} - {} * x = 0", lit(a * root), lit(a)),
    };
    let what = || format!("{text} from {guess} to within {m:e}");
    let limit = *c.rng.pick(&[30, 31, 1000]);
    let mut ctx = new_context();
    let res = match c.rng.below(3) {
        0 => cut(|| newton_raphson(|x: f64| -> anyhow::Result<f64> { Ok(a * (x - root)) }, guess, m, limit)),
        1 => cut(|| solve_equation_with_context(&text, &mut ctx, guess, f64::NEG_INFINITY, f64::INFINITY, m, limit).map(|s| s.1)),
        _ => cut(|| solve_equation_from_str(&text, m, limit).map(|s| s.1)),
    };
    c.seen(&format!("{m:e}{a}"));
    match res {
        Err(p) => c.fail("panic", format!("{}: {p}", what())),
        Ok(Err(e)) => {
            c.count(if usable { "extreme margins" } else { "refused settings" });
            c.check(!usable, "not-found", || format!("{}: {e}, but {root} is a root", what()));
        }
        Ok(Ok(x)) => {
            c.count("extreme margins");
            let y = a * (x - root);
            c.check(usable && y.abs() <= m, "residual", || format!("{}: {x}, where the function is {y:e}", what()));
        }
    }
}

fn margin(r: &mut Rng) -> f64 {
    *r.pick(&[0.1, 1e-2, 1e-3, 1e-4, 1e-6])
}

fn function(c: &mut Ctx) {
    let fam = family(&mut c.rng);
    let m = margin(&mut c.rng);
    let calls = RefCell::new(vec![]);
    let f = |x: f64| -> anyhow::Result<f64> {
        calls.borrow_mut().push(x);
        Ok((fam.f)(x))
    };
    let degenerate = c.rng.below(12);
    let (m2, limit) = match degenerate {
        0 => (0.0, fam.limit),
        1 => (-m, fam.limit),
        2 => (m, 0),
        3 => (m, c.rng.us(1, 3)),
        _ => (m, fam.limit),
    };
    let res = match cut(|| newton_raphson(f, fam.guess, m2, limit)) {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{} from {}: {p}", fam.text, fam.guess)),
    };
    let calls = calls.into_inner();
    let what = || format!("{} from {} to within {m2} in {limit}", fam.text, fam.guess);
    c.check(calls.len() <= 4 * limit + 8, "evaluations", || format!("{}: evaluated {} times", what(), calls.len()));
    if degenerate <= 2 {
        c.count("refused settings");
        c.check(res.is_err(), "settings", || format!("{}: {res:?}", what()));
        return;
    }
    c.check(calls.iter().take(3).any(|x| *x == fam.guess), "first-guess", || format!("{}: starts at {:?}", what(), calls.first()));
    let noise = 1e-12 * fam.scale;
    match &res {
        Ok(x) => {
            c.count("roots");
            let y = (fam.f)(*x);
            c.check(y.abs() <= m * (1.0 + 1e-9) + noise, "residual", || format!("{}: {x}, where the function is {y}", what()));
            c.check((x - fam.root).abs() <= fam.slack * m + 1e-9 * (1.0 + fam.root.abs()), "distance", || {
                format!("{}: {x}, but the root is {}", what(), fam.root)
            });
        }
        Err(e) => {
            c.check(degenerate == 3, "not-found", || format!("{}: {e}, but {} is a root", what(), fam.root));
        }
    }
    c.seen(&format!("{}{}{}", fam.text, fam.guess, m));
    c.sample("function", || format!("{} -> {res:?}", what()));
    if calls.len() > 1 && c.rng.chance(0.5) {
        faults(c, &fam, m);
    }
}

/// A function that fails while it is evaluated.
fn faults(c: &mut Ctx, fam: &Family, m: f64) {
    let at = c.rng.us(1, 8);
    let n = RefCell::new(0);
    let res = cut(|| {
        newton_raphson(
            |x: f64| -> anyhow::Result<f64> {
                *n.borrow_mut() += 1;
                if *n.borrow() == at {
                    anyhow::bail!("injected");
                }
                Ok((fam.f)(x))
            },
            fam.guess, m, fam.limit)
    });
    let met = *n.borrow() >= at;
    match res {
        Err(p) => c.fail("panic", format!("{} failing at evaluation {at}: {p}", fam.text)),
        Ok(r) => {
            c.count(if met { "faults met" } else { "faults not met" });
            c.check(r.is_err() == met, "fault", || format!("{} fails at evaluation {at} (met: {met}): {r:?}", fam.text));
        }
    }
}

/// Whatever the function: an answer is an answer.
fn soundness(c: &mut Ctx) {
    let names = vec!["x".to_string(); 3];
    let env = Env::standard();
    let mut funcs: Vec<(String, usize)> = env.funcs.iter().filter(|f| f.0 != "if").map(|(k, v)| (k.clone(), v.0)).collect();
    funcs.sort();
    let d = c.rng.us(1, 3);
    let x = expr::random(&mut c.rng, &names, &funcs, d);
    let k = c.rng.f(-3.0, 3.0);
    let m = margin(&mut c.rng);
    let guess = c.rng.f(-5.0, 5.0);
    let limit = c.rng.us(1, 60);
    let at = |v: f64| -> f64 {
        let e = env.clone().with("x", v);
        eval(&x, &e, &mut None).unwrap_or(f64::NAN) - k
    };
    let calls = RefCell::new(0usize);
    let res = cut(|| newton_raphson(|v| -> anyhow::Result<f64> { *calls.borrow_mut() += 1; Ok(at(v)) }, guess, m, limit));
    let text = expr::print(&x, &mut c.rng, &expr::BLANKS);
    let res = match res {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{text} = {k}: {p}")),
    };
    let n = *calls.borrow();
    c.check(n <= 4 * limit + 8, "evaluations", || format!("{text} = {k} with limit {limit}: evaluated {n} times"));
    if let Ok(v) = res {
        let y = at(v);
        let noise: f64 = 1e-9 * k.abs().max(1.0) * m;
        c.count("answers");
        c.check(y.abs() <= m + noise, "residual", || format!("{text} = {k} to within {m} from {guess}: {v}, where it is off by {y}"));
        // ... and the next step of the method is as small, whichever way the slope is measured
        let slopes = [(at(v + 1e-3) - y) / 1e-3, (y - at(v - 1e-3)) / 1e-3, (at(v + 1e-3) - at(v - 1e-3)) / 2e-3,
                      (at(v + 1e-5) - at(v - 1e-5)) / 2e-5];
        let step = slopes.iter().map(|s| (y / s).abs()).filter(|s| !s.is_nan()).fold(f64::INFINITY, f64::min);
        c.check(y == 0.0 || step <= m * 1.01 + 1e-12, "step", || format!("{text} = {k} to within {m} from {guess}: {v}, but the next step is {step}"));
        c.seen(&expr::shape(&x));
    } else {
        c.count("no answer");
    }
}

fn keys(ctx: &ContextHashMap) -> BTreeSet<String> {
    ctx.keys().cloned().collect()
}

/// A function without a root, and a search that may take long: it ends, with an error.
fn patience(c: &mut Ctx) {
    let limit = *c.rng.pick(&[20_000, 60_000, 150_000]);
    let (a, b) = (c.rng.f(0.5, 3.0), c.rng.f(-5.0, 5.0));
    let guess = c.rng.f(-5.0, 5.0);
    c.seen("long search");
    c.count("long searches");
    let what = || format!("(x - {b})^2 + {a} = 0 from {guess} in {limit}");
    let res = cut_small(|| {
        let calls = RefCell::new(0usize);
        let f = |x: f64| -> anyhow::Result<f64> {
            *calls.borrow_mut() += 1;
            Ok((x - b).powi(2) + a)
        };
        let r = newton_raphson(f, guess, 1e-6, limit).map_err(|e| e.to_string());
        (r, calls.into_inner())
    });
    match res {
        Err(p) => c.fail("panic", format!("{}: {p}", what())),
        Ok((r, n)) => {
            c.check(r.is_err(), "residual", || format!("{}: {r:?}", what()));
            c.check(n <= 4 * limit + 8, "evaluations", || format!("{}: evaluated {n} times", what()));
        }
    }
}

/// The same through the text of an equation.
fn equation(c: &mut Ctx) {
    let fam = family(&mut c.rng);
    let m = margin(&mut c.rng);
    let mut ctx = new_context();
    let unknown = if c.rng.chance(0.5) { "x".to_string() } else { c.rng.pick(&POOL).to_string() };
    let text = fam.text.replace('x', &unknown);
    // Values that the equation does not use
    for p in POOL.iter() {
        if *p != unknown && c.rng.chance(0.1) {
            ctx.add_const_to_ctx(p, c.rng.f(-9.0, 9.0));
        }
    }
    let before = keys(&ctx);
    // Between the guess and the root of these, the method stays inside
    let stays = !(fam.text.contains("^ 2") || fam.text.contains("^2") || fam.text.contains("x * x")) || fam.guess.abs() >= fam.root.abs();
    let (lo, hi) = if stays && c.rng.chance(0.4) {
        (fam.root.min(fam.guess) - c.rng.f(0.5, 9.0), fam.root.max(fam.guess) + c.rng.f(0.5, 9.0))
    } else {
        (f64::NEG_INFINITY, f64::INFINITY)
    };
    let inf = f64::INFINITY;
    // First an attempt that has to fail
    if c.rng.chance(0.4) {
        let (why, r) = match c.rng.below(5) {
            0 => ("margin 0", cut(|| solve_equation_with_context(&text, &mut ctx, fam.guess, lo, hi, 0.0, fam.limit))),
            1 => ("limit 0", cut(|| solve_equation_with_context(&text, &mut ctx, fam.guess, lo, hi, m, 0))),
            2 => {
                // The root is outside
                let lo = fam.root + 1.0 + 300.0 * m.max(1.0);
                let lo = if fam.text.contains('^') || fam.text.contains("x * x") { lo.max(100.0) } else { lo };
                let far = (fam.f)(lo).abs() > 2.0 * m;
                if !far {
                    return c.count("skipped");
                }
                ("domain without root", cut(|| solve_equation_with_context(&text, &mut ctx, lo + 1.0, lo, lo + 50.0, m, fam.limit)))
            }
            3 => ("second unknown", cut(|| solve_equation_with_context(&format!("{text} + other"), &mut ctx, fam.guess, -inf, inf, m, fam.limit))),
            _ => ("not an equation", cut(|| solve_equation_with_context(&format!("({text}"), &mut ctx, fam.guess, -inf, inf, m, fam.limit))),
        };
        match r {
            Err(p) => return c.fail("panic", format!("{text} with {why}: {p}")),
            Ok(r) => {
                c.count("failed attempts");
                c.check(r.is_err(), "should-fail", || format!("{text} with {why}: {r:?}"));
                c.check(keys(&ctx) == before, "failure-leaves-traces", || {
                    format!("{text} failed with {why}, and the context changed: {:?}", keys(&ctx).symmetric_difference(&before).collect::<Vec<_>>())
                });
            }
        }
    }
    let res = cut(|| solve_equation_with_context(&text, &mut ctx, fam.guess, lo, hi, m, fam.limit));
    let what = || format!("{text} from {} in [{lo}, {hi}] to within {m}", fam.guess);
    match res {
        Err(p) => c.fail("panic", format!("{}: {p}", what())),
        Ok(Err(e)) => c.fail("not-found", format!("{}: {e}, but {} is a root", what(), fam.root)),
        Ok(Ok((n, v))) => {
            c.count("equations solved");
            c.check(n == unknown, "name", || format!("{}: solved for {n}", what()));
            c.check((v - fam.root).abs() <= fam.slack * m + 1e-9 * (1.0 + fam.root.abs()), "distance", || {
                format!("{}: {v}, but the root is {}", what(), fam.root)
            });
            let y = (fam.f)(v);
            c.check(y.abs() <= m * (1.0 + 1e-6) + 1e-11 * fam.scale, "residual", || format!("{}: {v}, off by {y}", what()));
            c.sample("equation", || format!("{} -> {v}", what()));
        }
    }
    c.seen(&text);
    // A linear equation is solved from the default guess, too
    if fam.limit == 30 && c.rng.chance(0.5) {
        match cut(|| solve_equation_from_str(&text, m, 30)) {
            Ok(Ok((n, v))) => {
                c.check(n == unknown && (v - fam.root).abs() <= fam.slack * m + 1e-9 * (1.0 + fam.root.abs()), "from-str", || {
                    format!("{text} to within {m}: {n} = {v}, but the root is {}", fam.root)
                });
            }
            other => c.fail("from-str", format!("{text} to within {m}: {other:?}, but {} is a root", fam.root)),
        }
    }
}

/// Exactly one unknown is what the solver accepts.
fn constrained(c: &mut Ctx) {
    let mut pool: Vec<&str> = POOL.to_vec();
    c.rng.shuffle(&mut pool);
    let n = c.rng.us(0, 4);
    let known = c.rng.us(0, n);
    let mut ctx = new_context();
    let mut total = 0.0;
    let mut parts = vec![];
    for (i, p) in pool.iter().take(n).enumerate() {
        if i < known {
            let v = (c.rng.f(-9.0, 9.0) * 8.0).round() / 8.0;
            ctx.add_const_to_ctx(p, v);
            total += v;
        }
        parts.push(p.to_string());
        if c.rng.chance(0.3) {
            // A name that occurs twice is one name
            parts.push(p.to_string());
            if i < known {
                total += ctx_value(&ctx, p);
            }
        }
    }
    let unknowns = n - known;
    c.rng.shuffle(&mut parts);
    let rhs = (c.rng.f(-9.0, 9.0) * 8.0).round() / 8.0;
    parts.push("0.5".into());
    total += 0.5;
    let text = format!("{} = {rhs}", parts.join(" + "));
    let before = keys(&ctx);
    let res = match cut(|| solve_equation_with_context(&text, &mut ctx, 1.0, f64::NEG_INFINITY, f64::INFINITY, 1e-6, 30)) {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{text}: {p}")),
    };
    if unknowns == 1 {
        let u = pool[known].to_string();
        let times = parts.iter().filter(|p| **p == u).count() as f64;
        let want = (rhs - total) / times;
        c.count("one unknown");
        c.check(matches!(&res, Ok((n, v)) if *n == u && (v - want).abs() <= 1e-5), "one-unknown", || {
            format!("{text} for {u}: expected {want}, got {res:?}")
        });
    } else {
        c.count("other numbers of unknowns");
        c.check(res.is_err(), "constraint", || format!("{text} has {unknowns} unknowns: {res:?}"));
        c.check(keys(&ctx) == before, "failure-leaves-traces", || format!("{text}: the context changed"));
    }
    c.seen(&text);
}

fn ctx_value(ctx: &ContextHashMap, n: &str) -> f64 {
    match &ctx[n] {
        geqslib::shunting::Token::Num(v) => *v,
        _ => f64::NAN,
    }
}
