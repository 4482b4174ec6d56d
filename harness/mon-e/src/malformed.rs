//! E02: text that is not an expression is refused, and never crashes.
use crate::names::{world, World};
use geqslib::shunting::{compile_to_fn_of_hashmap, eval_str_with_context, ContextLike};
use geqslib::system::SystemBuilder;
use geqslib::solve_equation_with_context;
use vmon::expr::{self, agrees, join, judge, read, tokens, Reading};
use vmon::{cut, Ctx};

const JUNK: [&str; 22] = ["#", "$", "@", "!", "%", "&", "?", ";", ":", "[", "]", "{", "é", "λ", "1.2.3", "..", ".",
    "2x", "1e", "_e", "\u{1F600}", "0x10"];

fn mutate(c: &mut Ctx, t: &mut Vec<String>, w: &World) {
    let ops = ["+", "-", "*", "/", "^", "(", ")", ","];
    let fresh = |c: &mut Ctx| -> String {
        match c.rng.below(10) {
            0..=4 => c.rng.pick(&ops).to_string(),
            5 => expr::literal(&mut c.rng),
            6 => c.rng.pick(&w.names).clone(),
            7 => c.rng.pick(&w.funcs).0.clone(),
            8 => "nobody".to_string(),
            _ => c.rng.pick(&JUNK).to_string(),
        }
    };
    let n = c.rng.us(1, 3);
    for _ in 0..n {
        let i = c.rng.below(t.len() + 1);
        match c.rng.below(6) {
            0 | 1 => {
                let s = fresh(c);
                t.insert(i, s);
            }
            2 if !t.is_empty() => {
                t.remove(i.min(t.len() - 1));
            }
            3 if !t.is_empty() => {
                let s = fresh(c);
                let k = i.min(t.len() - 1);
                t[k] = s;
            }
            4 if t.len() > 1 => {
                let j = c.rng.below(t.len());
                let k = i.min(t.len() - 1);
                t.swap(k, j);
            }
            5 if !t.is_empty() => {
                let s = t[i.min(t.len() - 1)].clone();
                t.insert(i, s);
            }
            _ => {}
        }
    }
}

fn clear_text(t: &[String]) -> bool {
    // "1e" before a sign and "inf"-like words have readings of their own
    !t.windows(2).any(|p| p[0] == "1e" && (p[1] == "+" || p[1] == "-"))
}

pub fn case(c: &mut Ctx) {
    if c.rng.chance(0.25) {
        return equation(c);
    }
    let w = world(&mut c.rng, 5, false);
    let mut t = vec![];
    match c.rng.below(8) {
        0 => {
            let n = c.rng.us(0, 6);
            for _ in 0..n {
                mutate(c, &mut t, &w);
            }
        }
        _ => {
            let d = c.rng.us(0, 3);
            let x = expr::random(&mut c.rng, &w.names, &w.funcs, d);
            tokens(&x, 0, &mut c.rng, 0.1, &mut t);
            mutate(c, &mut t, &w);
        }
    }
    let reading = read(&t, &w.env);
    let density = *c.rng.pick(&[0.0, 0.5, 1.0]);
    let text = join(&t, &mut c.rng, density, &expr::BLANKS);

    let got = match cut(|| eval_str_with_context(&text, &w.ctx)) {
        Err(p) => return c.fail("panic", format!("{text:?}: {p}")),
        Ok(r) => r.ok(),
    };
    let compiled = match cut(|| compile_to_fn_of_hashmap(&text, &w.ctx).map(|f| f(&Default::default()))) {
        Err(p) => return c.fail("panic", format!("compiling {text:?}: {p}")),
        Ok(r) => r.ok().and_then(|r| r.ok()),
    };
    if !clear_text(&t) {
        return c.count("unclear");
    }
    match reading {
        Reading::Unclear => c.count("unclear"),
        Reading::Invalid => {
            c.count("refused");
            c.check(got.is_none(), "accepted", || format!("{text:?} is not an expression, but its value is {got:?}"));
            c.check(compiled.is_none(), "compiled", || format!("{text:?} is not an expression, but it compiles and gives {compiled:?}"));
            c.seen(&t.iter().map(|s| if s.len() > 3 { "w" } else { s.as_str() }).collect::<Vec<_>>().join(" "));
            c.sample("refused", || text.clone());
        }
        Reading::Valid(x) => {
            c.count("still valid");
            if let Some((want, tol)) = judge(&x, &w.env, &mut c.rng) {
                c.check(agrees(want, tol, got.ok_or(())), "value", || format!("{text:?}: expected {want:?}, got {got:?}"));
                c.check(agrees(want, tol, compiled.ok_or(())), "compiled-value", || format!("{text:?}: expected {want:?}, got {compiled:?}"));
            }
        }
    }
}

/// The same for equations: exactly one "=", and an expression on either side.
fn equation(c: &mut Ctx) {
    let mut w = world(&mut c.rng, 4, false);
    // Only constants are known; x is the unknown
    for v in w.vars.drain(..) {
        let k = w.env.vals[&v];
        w.ctx.add_const_to_ctx(&v, k);
    }
    let sides = *c.rng.pick(&[1, 2, 2, 2, 2, 2, 3]);
    let mut t: Vec<Vec<String>> = vec![];
    for i in 0..sides {
        let mut s = vec![];
        let d = c.rng.us(0, 2);
        let x = expr::random(&mut c.rng, &w.names, &w.funcs, d);
        tokens(&x, 0, &mut c.rng, 0.1, &mut s);
        if i == 0 {
            s.splice(0..0, ["unk".to_string(), "+".to_string()]);
        }
        if c.rng.chance(0.5) {
            mutate(c, &mut s, &w);
        }
        t.push(s);
    }
    let mut env = w.env.clone();
    // Any other name is an unknown as well
    env.vals.insert("unk".into(), 1.0);
    env.vals.insert("nobody".into(), 1.0);
    let readings: Vec<Reading> = t.iter().map(|s| read(s, &env)).collect();
    let clear = t.iter().all(|s| clear_text(s));
    let density = *c.rng.pick(&[0.3, 1.0]);
    let text = t.iter().map(|s| join(s, &mut c.rng, density, &expr::BLANKS)).collect::<Vec<_>>().join(" = ");
    let bad = sides != 2 || readings.contains(&Reading::Invalid);

    let mut ctx = w.ctx.clone();
    let solved = match cut(|| solve_equation_with_context(&text, &mut ctx, 1.0, f64::NEG_INFINITY, f64::INFINITY, 1e-3, 30)) {
        Err(p) => return c.fail("panic", format!("solving {text:?}: {p}")),
        Ok(r) => r.is_ok(),
    };
    let built = match cut(|| SystemBuilder::new(&text, w.ctx.clone()).is_ok()) {
        Err(p) => return c.fail("panic", format!("system of {text:?}: {p}")),
        Ok(r) => r,
    };
    if !clear || (!bad && readings.contains(&Reading::Unclear)) {
        return c.count("unclear");
    }
    if bad && (sides != 2 || !readings.contains(&Reading::Unclear)) {
        c.count("equations refused");
        c.check(!solved, "equation-solved", || format!("{text:?} is not an equation, but it is solved"));
        c.check(!built, "equation-built", || format!("{text:?} is not an equation, but a system is built from it"));
        c.seen(&text);
    } else if !bad {
        c.count("equations accepted");
        c.check(built, "equation-refused", || format!("{text:?} is an equation, but no system is built from it"));
    }
}
