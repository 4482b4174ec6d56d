//! E04: a variable's value never leaves its domain.
use crate::names::value;
use geqslib::shunting::{compile_to_fn, compile_to_fn_of_hashmap, new_context, ContextLike, Token};
use geqslib::solve_equation_with_context;
use geqslib::system::SystemBuilder;
use geqslib::variable::Variable;
use std::cell::RefCell;
use std::collections::HashMap;
use vmon::{cut, Ctx, Rng};

thread_local! {
    static SPIED: RefCell<Vec<f64>> = const { RefCell::new(vec![]) };
}

/// A function of the caller's that notes where it is evaluated.
fn spy(a: &[f64]) -> f64 {
    SPIED.with(|s| s.borrow_mut().push(a[0]));
    a[0]
}

fn bounds(r: &mut Rng) -> (f64, f64) {
    let lo = match r.below(4) {
        0 => f64::NEG_INFINITY,
        1 => 0.0,
        _ => r.f(-50.0, 20.0),
    };
    let hi = match r.below(4) {
        0 => f64::INFINITY,
        1 if lo <= 0.0 => 0.0,
        2 if lo.is_finite() && r.chance(0.3) => lo,
        _ => if lo.is_finite() { lo + r.f(0.0, 60.0) } else { r.f(-20.0, 50.0) },
    };
    (lo, hi)
}

fn clamp(v: f64, lo: f64, hi: f64) -> f64 {
    if v > hi { hi } else if v < lo { lo } else { v }
}

pub fn case(c: &mut Ctx) {
    match c.rng.below(10) {
        0..=4 => operations(c),
        5..=6 => functions(c),
        7..=8 => single(c),
        _ => system(c),
    }
}

fn operations(c: &mut Ctx) {
    let (lo, hi) = bounds(&mut c.rng);
    let start = value(&mut c.rng);
    let mut model = clamp(start, lo, hi);
    let in_context = c.rng.chance(0.3);
    let mut log = vec![format!("new({start}, {lo}, {hi})")];
    let mut var = if in_context {
        let mut ctx = new_context();
        ctx.add_var_with_domain_to_ctx("v", start, lo, hi);
        match &ctx["v"] {
            Token::Var(r) => *r.borrow(),
            other => return c.fail("not-a-variable", format!("{other:?}")),
        }
    } else {
        Variable::new(start, lo, hi)
    };
    let n = c.rng.us(1, 15);
    for _ in 0..n {
        let v = value(&mut c.rng) * *c.rng.pick(&[1.0, 1.0, 10.0, 1000.0]);
        let (what, next) = match c.rng.below(6) {
            0 => ("set", v),
            1 => ("+=", model + v),
            2 => ("-=", model - v),
            3 => ("*=", model * v),
            4 => ("/=", model / v),
            _ => ("set", *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, lo, hi])),
        };
        if next.is_nan() {
            continue;
        }
        log.push(format!("{what} {v}"));
        match what {
            "set" => var.set(next),
            "+=" => var += v,
            "-=" => var -= v,
            "*=" => var *= v,
            _ => var /= v,
        }
        model = clamp(next, lo, hi);
        let got: f64 = var.into();
        c.count("operations");
        if next != model {
            c.count("kept inside");
        }
        let ok = got == model || (got - model).abs() <= 1e-12 * model.abs();
        c.check(ok && got >= lo && got <= hi, "operation", || format!("{} gives {got}, expected {model}", log.join("; ")));
        if c.failed() {
            return;
        }
    }
    c.seen(&log.join(";"));
    c.sample("operations", || log.join("; "));
}

/// Compiled functions see the values that variables hold.
fn functions(c: &mut Ctx) {
    let mut ctx = new_context();
    ctx.add_func_to_ctx("spy", spy, 1);
    let n = c.rng.us(1, 3);
    let doms: Vec<(f64, f64)> = (0..n).map(|_| bounds(&mut c.rng)).collect();
    for (i, d) in doms.iter().enumerate() {
        ctx.add_var_with_domain_to_ctx(&format!("v{i}"), value(&mut c.rng), d.0, d.1);
    }
    let text = (0..n).map(|i| format!("spy(v{i})")).collect::<Vec<_>>().join(" + ");
    SPIED.with(|s| s.borrow_mut().clear());
    let points: Vec<Vec<f64>> = (0..6).map(|_| (0..n).map(|_| value(&mut c.rng) * 3.0).collect()).collect();
    let ctx2 = ctx.clone();
    let t = text.clone();
    let p2 = points.clone();
    let res = cut(move || -> anyhow::Result<Vec<f64>> {
        let mut out = vec![];
        if n == 1 {
            let f = compile_to_fn(&t, &ctx2)?;
            for p in &p2 {
                out.push(f(p[0])?);
            }
        } else {
            let f = compile_to_fn_of_hashmap(&t, &ctx2)?;
            for p in &p2 {
                out.push(f(&(0..n).map(|i| (format!("v{i}"), p[i])).collect())?);
            }
        }
        Ok(out)
    });
    let seen = SPIED.with(|s| s.borrow().clone());
    let out = match res {
        Ok(Ok(o)) => o,
        other => return c.fail("compiled", format!("{text}: {other:?}")),
    };
    for (k, p) in points.iter().enumerate() {
        let want: f64 = p.iter().zip(&doms).map(|(v, d)| clamp(*v, d.0, d.1)).sum();
        c.check((want - out[k]).abs() <= 1e-9 * (1.0 + want.abs()), "compiled", || {
            format!("{text} at {p:?} with domains {doms:?}: expected {want}, got {}", out[k])
        });
        if n == 1 {
            c.check(seen.get(k).is_some_and(|v| *v >= doms[0].0 && *v <= doms[0].1), "seen-outside", || {
                format!("{text} at {p:?} with domain {doms:?}: evaluated at {seen:?}")
            });
        }
    }
    c.count("compiled");
    c.seen(&format!("{doms:?}"));
}

/// The solver evaluates the equation inside the domain only, and answers inside it.
fn single(c: &mut Ctx) {
    let (lo, hi) = bounds(&mut c.rng);
    let mut ctx = new_context();
    ctx.add_func_to_ctx("spy", spy, 1);
    ctx.add_const_to_ctx("k", c.rng.f(-30.0, 30.0));
    let eqn = c.rng.pick(&["spy(x) = k", "2 * spy(x) + 1 = k", "spy(x) ^ 2 = k", "sin(spy(x)) = 0.5", "spy(x) ^ 3 - spy(x) = k",
        "1 / (spy(x) - 0.3) = k", "ln(spy(x)) = 1", "abs(spy(x)) = k", "spy(x) * 3 = spy(x) - k"]).to_string();
    let guess = value(&mut c.rng);
    let margin = *c.rng.pick(&[1e-2, 1e-4, 1e-6]);
    SPIED.with(|s| s.borrow_mut().clear());
    let res = match cut(|| solve_equation_with_context(&eqn, &mut ctx, guess, lo, hi, margin, 60)) {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{eqn} in [{lo}, {hi}]: {p}")),
    };
    let seen = SPIED.with(|s| s.borrow().clone());
    c.add("points seen", seen.len() as u64);
    c.check(seen.iter().all(|v| v.is_nan() || (*v >= lo && *v <= hi)), "evaluated-outside", || {
        format!("{eqn} in [{lo}, {hi}] from {guess}: evaluated at {:?}", seen.iter().find(|v| !(**v >= lo && **v <= hi)))
    });
    if let Ok((n, v)) = &res {
        c.count("solved");
        c.check(n == "x" && *v >= lo && *v <= hi, "solved-outside", || format!("{eqn} in [{lo}, {hi}] from {guess}: solution {n} = {v}"));
    }
    c.seen(&format!("{eqn}{lo}{hi}"));
}

fn system(c: &mut Ctx) {
    let (d, e) = (bounds(&mut c.rng), bounds(&mut c.rng));
    let k = c.rng.f(-30.0, 30.0);
    let m = c.rng.f(-30.0, 30.0);
    let mut ctx = new_context();
    ctx.add_func_to_ctx("spy", spy, 1);
    ctx.add_const_to_ctx("k", k);
    ctx.add_const_to_ctx("m", m);
    let eqs = c.rng.pick(&[
        ["spy(x) + y = k", "x - y = m"],
        ["spy(x) ^ 2 + y = k", "x - y = m"],
        ["spy(x) * 2 = k", "y - x ^ 2 = m"],
        ["spy(x) * y = 4", "x + y = k"],
    ]);
    let guess: (f64, f64) = (value(&mut c.rng), value(&mut c.rng));
    let margin = *c.rng.pick(&[1e-2, 1e-4, 1e-6]);
    let specify_both = c.rng.chance(0.7);
    let run = |guess: (f64, f64), first: Option<(f64, (f64, f64))>| cut(|| -> anyhow::Result<HashMap<String, f64>> {
        let mut b = SystemBuilder::new(eqs[0], ctx.clone())?;
        b.try_constrain_with(eqs[1])?;
        let mut s = b.build_system().ok_or_else(|| anyhow::anyhow!("not constrained"))?;
        if let Some((g, b)) = first {
            s.specify_variable("x", g, b.0, b.1);
        }
        s.specify_variable("x", guess.0, d.0, d.1);
        if specify_both {
            s.specify_variable("y", guess.1, e.0, e.1);
        }
        s.solve(margin, 40)
    });
    let inside = (clamp(guess.0, d.0, d.1), if specify_both { clamp(guess.1, e.0, e.1) } else { guess.1 });
    if inside != guess {
        // A guess outside is the nearest bound. The order of hash tables may make a difference in single runs.
        let tries = |g| -> Vec<bool> { (0..3).map(|_| matches!(run(g, None), Ok(Ok(_)))).collect() };
        let (a, b) = (tries(guess), tries(inside));
        c.count("guesses outside");
        c.check(a.iter().any(|x| b.contains(x)), "guess-outside", || {
            format!("{eqs:?} with x in {d:?}, y in {e:?} ({specify_both}), k={k} m={m} from {guess:?}: solved {a:?}, but {b:?} from {inside:?}")
        });
    }
    // What was said of the variable before is of no account
    let first = c.rng.chance(0.5).then(|| (value(&mut c.rng), bounds(&mut c.rng)));
    if first.is_some() {
        let tries = |f| -> Vec<bool> { (0..3).map(|_| matches!(run(guess, f), Ok(Ok(_)))).collect() };
        let (a, b) = (tries(first), tries(None));
        c.count("specified again");
        if b[0] {
            c.count("specified again and solved");
        }
        c.check(a.iter().any(|x| b.contains(x)), "specified-again", || {
            format!("{eqs:?} with x in {d:?}, y in {e:?} ({specify_both}), k={k} m={m} from {guess:?}, before that {first:?}: solved {a:?}, without that {b:?}")
        });
    }
    SPIED.with(|s| s.borrow_mut().clear());
    let res = run(guess, first);
    let res = match res {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{eqs:?}: {p}")),
    };
    let seen = SPIED.with(|s| s.borrow().clone());
    c.add("points seen", seen.len() as u64);
    c.check(seen.iter().all(|v| v.is_nan() || (*v >= d.0 && *v <= d.1)), "evaluated-outside", || {
        format!("{eqs:?} with x in {d:?}: evaluated at {:?}", seen.iter().find(|v| !(**v >= d.0 && **v <= d.1)))
    });
    if let Ok(s) = &res {
        c.count("systems solved");
        let ok = s.get("x").is_some_and(|x| *x >= d.0 && *x <= d.1)
            && (!specify_both || s.get("y").map_or(true, |y| *y >= e.0 && *y <= e.1));
        c.check(ok, "solved-outside", || format!("{eqs:?} with x in {d:?}, y in {e:?}, k={k} m={m} from {guess:?}: {s:?}"));
    }
    c.seen(&format!("{eqs:?}{d:?}{e:?}"));
}
