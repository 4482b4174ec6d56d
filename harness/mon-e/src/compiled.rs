//! E03: a compiled expression gives what direct evaluation gives, at every point, in any order.
use crate::names::{value, world};
use geqslib::shunting::{compile_to_fn, compile_to_fn_of_hashmap, eval_str_with_context, new_context, ContextLike};
use std::collections::HashMap;
use vmon::expr::{self, agrees, judge};
use vmon::{cut, Ctx};

pub fn case(c: &mut Ctx) {
    if c.rng.chance(0.3) {
        return one_variable(c);
    }
    if c.rng.chance(0.05) {
        return scales(c);
    }
    let mut w = world(&mut c.rng, 6, false);
    let n = c.rng.us(1, 3);
    let mut xs = vec![];
    for _ in 0..n {
        let d = c.rng.us(1, 4);
        xs.push(expr::random(&mut c.rng, &w.names, &w.funcs, d));
    }
    let texts: Vec<String> = xs.iter().map(|x| expr::print(x, &mut c.rng, &expr::BLANKS)).collect();
    // Several functions share the variables of one context
    let mut fs = vec![];
    for t in &texts {
        match cut(|| compile_to_fn_of_hashmap(t, &w.ctx)) {
            Ok(Ok(f)) => fs.push(f),
            Ok(Err(e)) => return c.fail("refused", format!("{t}: {e}")),
            Err(p) => return c.fail("panic", format!("{t}: {p}")),
        }
    }
    let fixed = w.ctx.clone();
    // What the caller does with the context afterwards does not concern them
    let env = w.env.clone();
    if c.rng.chance(0.3) {
        let consts: Vec<String> = w.names.iter().filter(|n| !w.vars.contains(n)).cloned().collect();
        for k in consts {
            w.ctx.add_const_to_ctx(&k, 123.456);
        }
        c.count("context changed");
    }
    let fixed: HashMap<_, _> = fixed.into_iter().filter(|(k, _)| !w.vars.contains(k)).collect();
    let mut history: Vec<(usize, HashMap<String, f64>)> = vec![];
    let calls = c.rng.us(3, 12);
    for _ in 0..calls {
        let i = c.rng.below(n);
        let point = if !history.is_empty() && c.rng.chance(0.3) {
            history[c.rng.below(history.len())].1.clone()
        } else {
            let far = c.rng.chance(0.15);
            w.vars.iter().map(|v| (v.clone(), if far && c.rng.chance(0.5) { infinite(c) } else { value(&mut c.rng) })).collect()
        };
        history.push((i, point.clone()));
        let mut env = env.clone();
        for (k, v) in &point {
            env.vals.insert(k.clone(), *v);
        }
        let got = match cut(|| fs[i](&point)) {
            Err(p) => return c.fail("panic", format!("{} at {point:?}: {p}", texts[i])),
            Ok(r) => r.ok(),
        };
        if point.values().any(|v| v.is_infinite()) {
            // Beyond all numbers, the text evaluated with constants in place of the variables decides
            let mut other = new_context();
            other.extend(fixed.iter().map(|(k, t)| (k.clone(), t.clone())));
            for (k, v) in &point {
                other.add_const_to_ctx(k, *v);
            }
            let direct = cut(|| eval_str_with_context(&texts[i], &other)).ok().and_then(|r| r.ok());
            c.count("calls at infinity");
            c.check(alike(got, direct), "infinite", || format!("{} at {point:?} (call {}): {got:?}, but direct evaluation gives {direct:?}", texts[i], history.len()));
            continue;
        }
        let Some((want, tol)) = judge(&xs[i], &env, &mut c.rng) else {
            c.count("skipped");
            continue;
        };
        c.count("calls");
        c.check(agrees(want, tol, got.ok_or(())), "value", || {
            format!("{} at {point:?} (call {}): expected {want:?}, got {got:?}", texts[i], history.len())
        });
    }
    c.seen(&format!("{}{}", xs.iter().map(expr::shape).collect::<String>(), calls));
    c.sample("compiled", || format!("{} with {} calls", texts.join(" ; "), calls));
}

/// Variables of very different sizes, each of which counts.
fn scales(c: &mut Ctx) {
    let n = c.rng.us(1, 6);
    let names: Vec<String> = ["x", "y", "z", "u", "v", "w"][..n].iter().map(|s| s.to_string()).collect();
    let sizes: Vec<i32> = (0..n).map(|_| if c.rng.chance(0.4) { 0 } else { c.rng.range(-290, 290) as i32 / if c.rng.chance(0.7) { 15 } else { 1 } }).collect();
    let mut ctx = new_context();
    for v in &names {
        ctx.add_var_to_ctx(v, 1.0);
    }
    let single = n == 1 && c.rng.chance(0.5);
    let text = names.iter().zip(&sizes).map(|(v, s)| format!("10 ^ {} * {v}", if *s < 0 { format!("{}", -s) } else { format!("(0 - {s})") })).collect::<Vec<_>>().join(" + ");
    let f = match cut(|| -> anyhow::Result<Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>> {
        Ok(if single {
            let (f, v) = (compile_to_fn(&text, &ctx)?, names[0].clone());
            Box::new(move |p: &HashMap<String, f64>| f(p[&v]))
        } else {
            Box::new(compile_to_fn_of_hashmap(&text, &ctx)?)
        })
    }) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return c.fail("refused", format!("{text}: {e}")),
        Err(p) => return c.fail("panic", format!("{text}: {p}")),
    };
    let mut point: HashMap<String, f64> = names.iter().map(|v| (v.clone(), 1.0)).collect();
    for i in 0..c.rng.us(2, 9) {
        for (v, s) in names.iter().zip(&sizes) {
            if c.rng.chance(0.6) {
                let x = *c.rng.pick(&[0.0, 0.0, 1.0, -1.0, 2.0, -3.0, 0.125]);
                point.insert(v.clone(), x * 10f64.powi(*s));
            }
        }
        let terms: Vec<f64> = names.iter().zip(&sizes).map(|(v, s)| 10f64.powi(-s) * point[v]).collect();
        let (want, tol) = (terms.iter().sum::<f64>(), 1e-9 * terms.iter().map(|t| t.abs()).sum::<f64>());
        let got = match cut(|| f(&point)) {
            Err(p) => return c.fail("panic", format!("{text} at {point:?}: {p}")),
            Ok(r) => r.ok(),
        };
        c.count("calls of all sizes");
        c.check(got.is_some_and(|g| (g - want).abs() <= tol), "value", || format!("{text} at {point:?}, call {i}: expected {want}, got {got:?}"));
    }
    c.seen(&text);
}

fn infinite(c: &mut Ctx) -> f64 {
    *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY])
}

/// Equal up to rounding, where infinities and undefined values count as equal to themselves.
fn alike(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs()),
        (a, b) => a.is_none() == b.is_none(),
    }
}

fn one_variable(c: &mut Ctx) {
    let mut w = world(&mut c.rng, 5, false);
    for v in w.vars.drain(..) {
        let k = w.env.vals[&v];
        w.ctx.add_const_to_ctx(&v, k);
    }
    let lo = c.rng.f(-50.0, 0.0);
    let hi = c.rng.f(0.1, 50.0);
    let bounded = c.rng.chance(0.3);
    if bounded {
        w.ctx.add_var_with_domain_to_ctx("var", 0.05, lo, hi);
    } else {
        w.ctx.add_var_to_ctx("var", 0.05);
    }
    let mut names = w.names.clone();
    names.extend(["var".to_string(), "var".to_string(), "var".to_string(), "var".to_string()]);
    let d = c.rng.us(1, 4);
    let x = expr::random(&mut c.rng, &names, &w.funcs, d);
    let text = expr::print(&x, &mut c.rng, &expr::BLANKS);
    let f = match cut(|| compile_to_fn(&text, &w.ctx)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return c.fail("refused", format!("{text}: {e}")),
        Err(p) => return c.fail("panic", format!("{text}: {p}")),
    };
    for i in 0..8 {
        let v = if c.rng.chance(0.08) { infinite(c) } else { value(&mut c.rng) };
        let inside = if bounded { v.clamp(lo, hi) } else { v };
        let env = w.env.clone().with("var", inside);
        let got = match cut(|| f(v)) {
            Err(p) => return c.fail("panic", format!("{text} at {v}: {p}")),
            Ok(r) => r.ok(),
        };
        // Direct evaluation of a context that holds the same value
        let mut other = new_context();
        other.extend(w.ctx.iter().filter(|(k, _)| *k != "var").map(|(k, t)| (k.clone(), t.clone())));
        other.add_const_to_ctx("var", inside);
        let direct = cut(|| eval_str_with_context(&text, &other)).ok().and_then(|r| r.ok());
        if inside.is_infinite() {
            c.count("calls at infinity");
            c.check(alike(got, direct), "infinite", || format!("{text} at var = {v}, call {i}: {got:?}, but direct evaluation gives {direct:?}"));
            continue;
        }
        let Some((want, tol)) = judge(&x, &env, &mut c.rng) else {
            c.count("skipped");
            continue;
        };
        c.count("calls of one variable");
        c.check(agrees(want, tol, got.ok_or(())), "value", || {
            format!("{text} at var = {v} (in [{lo}, {hi}]: {bounded}), call {i}: expected {want:?}, got {got:?}")
        });
        c.check(agrees(want, tol, direct.ok_or(())), "direct", || format!("{text} at var = {inside}: expected {want:?}, got {direct:?}"));
    }
    c.seen(&expr::shape(&x));
}
