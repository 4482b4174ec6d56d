//! Names and contexts that the monitors share.
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use vmon::expr::Env;
use vmon::Rng;

pub const POOL: [&str; 26] = ["x", "y", "z", "a", "b", "x1", "x_2", "Temp", "E", "PI", "e1", "sinx", "log2", "cosine",
    "iffy", "expo", "q0e", "R", "snake_case_1", "CamelCase2", "pi2", "ee", "x10", "abs_", "inf", "NaN"];

/// Functions of the caller's own. The library passes the last argument first.
fn zero(_: &[f64]) -> f64 {
    42.5
}
fn half(a: &[f64]) -> f64 {
    a[0] / 2.0
}
fn weigh2(a: &[f64]) -> f64 {
    a[1] - 2.0 * a[0]
}
fn weigh3(a: &[f64]) -> f64 {
    a[2] + 10.0 * a[1] - 3.0 * a[0]
}

fn weigh7(a: &[f64]) -> f64 {
    a.iter().rev().enumerate().map(|(i, x)| (i as f64 + 1.0) * x).sum()
}
fn weigh10(a: &[f64]) -> f64 {
    a.iter().rev().enumerate().map(|(i, x)| (7.0 - i as f64) * x).sum()
}

pub struct World {
    pub ctx: ContextHashMap,
    pub env: Env,
    /// Names with values, and which of them are variables.
    pub names: Vec<String>,
    pub vars: Vec<String>,
    pub funcs: Vec<(String, usize)>,
}

/// A context with values under some names, and what the reference makes of it.
pub fn world(r: &mut Rng, most: usize, all_vars: bool) -> World {
    let mut w = World {
        ctx: new_context(),
        env: Env::standard(),
        names: vec!["pi".into(), "e".into()],
        vars: vec![],
        funcs: vec![],
    };
    let mut pool: Vec<&str> = POOL.to_vec();
    r.shuffle(&mut pool);
    let n = r.us(0, most);
    for p in pool.iter().take(n) {
        let v = value(r);
        if all_vars || r.chance(0.5) {
            w.ctx.add_var_to_ctx(p, v);
            w.vars.push(p.to_string());
        } else {
            w.ctx.add_const_to_ctx(p, v);
        }
        w.env.vals.insert(p.to_string(), v);
        w.names.push(p.to_string());
    }
    if r.chance(0.5) {
        w.ctx.add_func_to_ctx("zero", zero, 0);
        w.ctx.add_func_to_ctx("half", half, 1);
        w.ctx.add_func_to_ctx("weigh2", weigh2, 2);
        w.ctx.add_func_to_ctx("weigh3", weigh3, 3);
        w.env.funcs.insert("zero".into(), (0, |_| 42.5));
        w.env.funcs.insert("half".into(), (1, |a| a[0] / 2.0));
        w.env.funcs.insert("weigh2".into(), (2, |a| a[0] - 2.0 * a[1]));
        w.env.funcs.insert("weigh3".into(), (3, |a| a[0] + 10.0 * a[1] - 3.0 * a[2]));
        if r.chance(0.3) {
            w.ctx.add_func_to_ctx("weigh7", weigh7, 7);
            w.ctx.add_func_to_ctx("weigh10", weigh10, 10);
            w.env.funcs.insert("weigh7".into(), (7, |a| a.iter().enumerate().map(|(i, x)| (i as f64 + 1.0) * x).sum()));
            w.env.funcs.insert("weigh10".into(), (10, |a| a.iter().enumerate().map(|(i, x)| (7.0 - i as f64) * x).sum()));
        }
    }
    w.funcs = w.env.funcs.iter().map(|(k, v)| (k.clone(), v.0)).collect();
    w.funcs.sort();
    w
}

pub fn value(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.range(-5, 5) as f64,
        1 => r.f(-1.0, 1.0),
        2 => r.f(-100.0, 100.0),
        3 => r.f(0.1, 10.0),
        4 => r.f(0.1, 10.0),
        _ => r.range(1, 20) as f64 / 4.0,
    }
}
