//! X06: guesses choose among the solutions and domains bound them.
use crate::prog::NAMES;
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::HashMap;
use vmon::{cut, Ctx};

/// Ways to write a number that declarations accept.
fn written(c: &mut Ctx, v: f64) -> String {
    let s = format!("{}", v.abs());
    let t = match c.rng.below(5) {
        0 => s,
        1 if !s.contains('.') => s + ".",
        2 => format!("{:e}", v.abs()),
        3 => format!("{:E}", v.abs()),
        4 => {
            let e = format!("{:e}", v.abs());
            if e.contains("e-") { e } else { e.replace('e', "e+") }
        }
        _ => format!("{:.6}", v.abs()),
    };
    if v < 0.0 { format!("{}{t}", c.rng.pick(&["-", "-", "- "])) } else { t }
}

fn word(c: &mut Ctx, w: &str) -> String {
    match c.rng.below(4) {
        0 => w.to_uppercase(),
        1 => w[..1].to_uppercase() + &w[1..],
        _ => w.to_string(),
    }
}

fn gap(c: &mut Ctx) -> &'static str {
    *c.rng.pick(&[" ", " ", "  ", "   "])
}

fn guess(c: &mut Ctx, n: &str, v: f64) -> String {
    let (g, f, v) = (word(c, "guess"), word(c, "for"), written(c, v));
    format!("{g}{}{v}{}{f}{}{n}", gap(c), gap(c), gap(c))
}

fn keep(c: &mut Ctx, n: &str, lo: f64, hi: f64) -> String {
    let (k, o, lo, hi) = (word(c, "keep"), word(c, "on"), written(c, lo), written(c, hi));
    let (p, q, r) = (*c.rng.pick(&["", "", " "]), *c.rng.pick(&["", " ", " "]), *c.rng.pick(&["", "", " "]));
    format!("{k}{}{n}{}{o}{}[{p}{lo},{q}{hi}{r}]", gap(c), gap(c), gap(c))
}

/// An equation of one unknown with several solutions, far apart.
struct Many {
    text: String,
    roots: Vec<f64>,
    /// How near a guess must be to single out a solution.
    near: f64,
    f: Box<dyn Fn(f64) -> f64>,
}

fn many(c: &mut Ctx, n: &str) -> Many {
    let signed = |v: f64| if v < 0.0 { format!("+ {}", -v) } else { format!("- {v}") };
    match c.rng.below(4) {
        0..=1 => {
            let k = c.rng.us(2, 4);
            let mut roots: Vec<f64> = vec![c.rng.range(-40, 0) as f64 / 4.0];
            for _ in 1..k {
                let v = roots.last().unwrap() + c.rng.range(8, 24) as f64 / 4.0;
                roots.push(v);
            }
            let text = roots.iter().map(|r| format!("({n} {})", signed(*r))).collect::<Vec<_>>().join("*");
            let rs = roots.clone();
            Many {
                text: if c.rng.chance(0.5) { format!("{text} = 0") } else { format!("0 = {text}") },
                roots, near: 0.15, f: Box::new(move |x| rs.iter().map(|r| x - r).product()),
            }
        }
        2 => {
            let m = c.rng.range(4, 100) as f64 / 4.0;
            let r = m.sqrt();
            Many { text: format!("{n}^2 = {m}"), roots: vec![-r, r], near: 0.3, f: Box::new(move |x| x * x - m) }
        }
        _ => {
            let k = c.rng.range(-6, 6) as f64 / 10.0;
            let (a, p) = (k.asin(), std::f64::consts::PI);
            let mut roots: Vec<f64> = (-3..=3).flat_map(|i| [a + 2.0 * p * i as f64, p - a + 2.0 * p * i as f64]).collect();
            roots.sort_by(|a, b| a.total_cmp(b));
            Many { text: format!("sin({n}) = {k}"), roots, near: 0.2, f: Box::new(move |x| x.sin() - k) }
        }
    }
}

fn solve(text: &str, margin: f64, limit: usize) -> Result<Result<HashMap<String, f64>, String>, String> {
    let t = text.to_string();
    cut(move || solve_with_preprocessors(&t, margin, limit).map(|r| r.1).map_err(|e| e.to_string()))
}

pub fn case(c: &mut Ctx) {
    // Names that begin with one another
    let pool = if c.rng.chance(0.4) {
        vec!["x", "x1", "x10", "x1_0", "xx", "X"]
    } else {
        let mut v = NAMES.to_vec();
        c.rng.shuffle(&mut v);
        v.truncate(6);
        v
    };
    match c.rng.below(11) {
        10 => together(c, &pool),
        0..=5 => roots(c, &pool),
        6..=7 => pair(c, &pool),
        8 => edge(c, &pool),
        _ => refused(c, &pool),
    }
}

fn roots(c: &mut Ctx, pool: &[&str]) {
    let margin = 1e-7;
    let mut lines = vec![];
    let mut checks: Vec<(String, Many, Option<f64>, Option<(f64, f64)>)> = vec![];
    let mut declared: HashMap<String, [f64; 3]> = HashMap::new();
    let mut eqs = vec![];
    let count = c.rng.us(1, pool.len());
    // The last one may have nothing to promise: it only must keep its bounds
    let promise = c.rng.chance(0.7);
    for n in &pool[..count] {
        let m = many(c, n);
        let i = c.rng.below(m.roots.len());
        let r = m.roots[i];
        let g = ((r + c.rng.f(-m.near, m.near)) * 1e4).round() / 1e4;
        let domain = c.rng.chance(0.6).then(|| {
            let lo = if i > 0 && c.rng.chance(0.7) { (r + m.roots[i - 1]) / 2.0 } else { r - c.rng.f(0.6, 30.0) };
            let hi = if i + 1 < m.roots.len() && c.rng.chance(0.7) { (r + m.roots[i + 1]) / 2.0 } else { r + c.rng.f(0.6, 30.0) };
            ((lo * 1e3).round() / 1e3, (hi * 1e3).round() / 1e3)
        });
        let guessed = promise || c.rng.chance(0.5);
        let mut d = [1.0, f64::NEG_INFINITY, f64::INFINITY];
        if guessed {
            // Far away guesses promise nothing but the bounds
            let g = match (promise, domain) {
                (true, _) => g,
                (false, Some((lo, hi))) => {
                    if c.rng.chance(0.2) { lo } else if c.rng.chance(0.2) { hi } else { ((lo + c.rng.unit() * (hi - lo)) * 1e4).round() / 1e4 }
                }
                _ => g + 2.0,
            };
            d[0] = g;
            lines.push(guess(c, n, g));
        }
        if let Some((lo, hi)) = domain {
            d[1] = lo;
            d[2] = hi;
            lines.push(keep(c, n, lo, hi));
        }
        if guessed || domain.is_some() {
            declared.insert(n.to_string(), d);
        }
        eqs.push(m.text.clone());
        checks.push((n.to_string(), m, promise.then_some(r), domain));
    }
    c.rng.shuffle(&mut eqs);
    let direct = c.rng.chance(0.25);
    let text;
    let got = if direct {
        text = format!("{} with {declared:?}", eqs.join("\n"));
        let t = eqs.join("\n");
        cut(move || {
            let mut ctx = geqslib::shunting::new_context();
            let mut d = declared.clone();
            basic_solve(&t, &mut ctx, &mut d, margin, 200).map(|r| r.1).map_err(|e| e.to_string())
        })
    } else {
        lines.extend(eqs);
        c.rng.shuffle(&mut lines);
        text = lines.join("\n");
        solve(&text, margin, 200)
    };
    c.seen(&text);
    c.sample(if promise { "near" } else { "far" }, || text.clone());
    let soln = match got {
        Err(m) => return c.fail("panic", format!("{text}: {m}")),
        Ok(Err(e)) => {
            c.count("no answer");
            c.check(!promise, "not-solved", || format!("{text}\n{e}"));
            return;
        }
        Ok(Ok(s)) => s,
    };
    for (n, m, r, domain) in &checks {
        let Some(&v) = soln.get(n) else { return c.fail("missing", format!("{text}\nno value for {n} in {soln:?}")) };
        c.check((m.f)(v).abs() <= margin * 1.001 + 1e-9, "residual", || format!("{text}\n{n} = {v} leaves {}", (m.f)(v)));
        if let Some(r) = r {
            c.count("chosen");
            c.check((v - r).abs() < 1e-5, "chosen", || format!("{text}\n{n} is {v}, not {r}, which its guess is next to"));
        }
        if let Some((lo, hi)) = domain {
            c.count("bounded");
            c.check(*lo <= v && v <= *hi, "outside", || format!("{text}\n{n} is {v}"));
        }
    }
}

/// Two unknowns that are solved together, with two solutions.
fn pair(c: &mut Ctx, pool: &[&str]) {
    let (x, y) = (pool[0], pool[1]);
    let a = c.rng.range(-20, 16) as f64 / 2.0;
    let b = a + c.rng.range(4, 20) as f64 / 2.0;
    let swap = c.rng.chance(0.5);
    let (xv, yv) = if swap { (b, a) } else { (a, b) };
    let p = if c.rng.chance(0.5) { format!("{x}*{y} = {}", a * b) } else { format!("{} = {y} * {x}", a * b) };
    let mut lines = vec![p, format!("{x} + {y} = {}", a + b)];
    let near = c.rng.chance(0.7);
    let w = if near { 0.3 } else { 3.0 };
    let (gx, gy) = (((xv + c.rng.f(-w, w)) * 100.0).round() / 100.0, ((yv + c.rng.f(-w, w)) * 100.0).round() / 100.0);
    let kept = c.rng.chance(0.6);
    lines.push(guess(c, x, gx));
    lines.push(guess(c, y, gy));
    let mid = (a + b) / 2.0;
    let side = |v: f64| if v < mid { (mid - 40.0, mid - 0.25) } else { (mid + 0.25, mid + 40.0) };
    let (dx, dy) = (side(xv), side(yv));
    if kept {
        lines.push(keep(c, x, dx.0, dx.1));
        lines.push(keep(c, y, dy.0, dy.1));
    }
    // Declarations of others: of unknowns that are solved on their own, and of names that occur nowhere
    let mut others = vec![];
    for n in &pool[2..2 + c.rng.below(pool.len() - 1)] {
        if c.rng.chance(0.6) {
            let m = many(c, n);
            let r = *c.rng.pick(&m.roots);
            let g = ((r + c.rng.f(-m.near, m.near)) * 1e4).round() / 1e4;
            lines.push(m.text);
            lines.push(guess(c, n, g));
            others.push((n.to_string(), r));
        } else {
            let g = c.rng.range(-40, 40) as f64 / 4.0;
            lines.push(guess(c, n, g));
            if c.rng.chance(0.5) {
                lines.push(keep(c, n, g - 1.0, g + 3.0));
            }
        }
        c.count("declarations of others");
    }
    c.rng.shuffle(&mut lines);
    let text = lines.join("\n");
    let margin = 1e-7;
    c.seen(&text);
    c.count("pairs");
    c.sample("pair", || text.clone());
    match solve(&text, margin, 200) {
        Err(m) => c.fail("panic", format!("{text}: {m}")),
        Ok(Err(e)) => {
            c.check(!near, "pair-not-solved", || format!("{text}\n{e}"));
        }
        Ok(Ok(s)) => {
            let (Some(&u), Some(&v)) = (s.get(x), s.get(y)) else { return c.fail("missing", format!("{text}\n{s:?}")) };
            let ok = (u * v - a * b).abs() <= 1e-6 && (u + v - a - b).abs() <= 1e-6;
            c.check(ok, "pair-residual", || format!("{text}\n{s:?}"));
            if kept {
                c.check(dx.0 <= u && u <= dx.1 && dy.0 <= v && v <= dy.1, "pair-outside", || format!("{text}\n{s:?}"));
            }
            if near {
                c.check((u - xv).abs() < 1e-4 && (v - yv).abs() < 1e-4, "pair-chosen", || format!("{text}\n{s:?}, expected {xv}, {yv}"));
                for (n, r) in &others {
                    c.check(s.get(n).is_some_and(|v| (v - r).abs() < 1e-4), "other-chosen", || format!("{text}\n{n} is {:?}, not {r}", s.get(n)));
                }
            }
        }
    }
}

/// A solution next to a bound, on either side of it: what is reported lies inside to the last digit.
fn edge(c: &mut Ctx, pool: &[&str]) {
    let n = pool[0];
    let places = c.rng.range(0, 6) as i32;
    let bound = (c.rng.f(-20.0, 20.0) * 10f64.powi(places)).round() / 10f64.powi(places);
    if bound == 0.0 {
        return;
    }
    let apart = if c.rng.chance(0.3) { 0.0 } else { 10f64.powf(c.rng.f(-12.0, -1.0)) * if c.rng.chance(0.5) { 1.0 } else { -1.0 } };
    let r = bound + apart;
    let width = c.rng.range(1, 80) as f64 / 4.0;
    let lower = c.rng.chance(0.5);
    let (lo, hi) = if lower { (bound, bound + width) } else { (bound - width, bound) };
    let g = if c.rng.chance(0.2) { bound } else { ((lo + c.rng.unit() * (hi - lo)) * 1e3).round() / 1e3 };
    let mut lines = vec![guess(c, n, g), keep(c, n, lo, hi)];
    let k = c.rng.range(2, 9) as f64;
    lines.extend(match c.rng.below(5) {
        0 => vec![format!("{n} = {r}")],
        1 => vec![format!("{k}*{n} - {} = 0", k * r)],
        2 => vec![format!("{n}^3 = {}", r * r * r)],
        3 => vec![format!("exp({n}/10) = {}", (r / 10.0).exp())],
        _ => vec![format!("{n} + {k}*{} = {}", pool[1], r + 3.0 * k), format!("{n} - {} = {}", pool[1], r - 3.0)],
    });
    c.rng.shuffle(&mut lines);
    let margin = *c.rng.pick(&[1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-9]);
    let text = lines.join("\n");
    c.seen(&text);
    c.sample("edge", || text.clone());
    match solve(&text, margin, 100) {
        Err(m) => c.fail("panic", format!("{text}: {m}")),
        Ok(Err(_)) => c.count("no answer next to a bound"),
        Ok(Ok(s)) => {
            c.count("answers next to a bound");
            let Some(&v) = s.get(n) else { return c.fail("missing", format!("{text}\n{s:?}")) };
            c.check(lo <= v && v <= hi, "edge-outside", || format!("{text} (margin {margin})\n{n} is {v:?}, bounds {lo:?} to {hi:?}"));
        }
    }
}

/// There is nothing in the domain.
fn refused(c: &mut Ctx, pool: &[&str]) {
    let n = pool[0];
    let m = many(c, n);
    let mut lines = vec![m.text.clone()];
    let what = c.rng.below(2);
    match what {
        0 => {
            // No solution within these bounds
            let i = c.rng.below(m.roots.len());
            let r = m.roots[i];
            let hi = m.roots.get(i + 1).copied().filter(|h| h - r > 1.0).unwrap_or(r + 10.0);
            let (lo, hi) = if i + 1 == m.roots.len() && m.text.contains("sin") { return } else { (r + 0.25, hi - 0.25) };
            if !(0..=200).all(|k| (m.f)(lo + (hi - lo) * k as f64 / 200.0).abs() > 1e-3) {
                return;
            }
            lines.push(keep(c, n, (lo * 1e3).ceil() / 1e3, (hi * 1e3).floor() / 1e3));
            if c.rng.chance(0.7) {
                let g = ((lo + (hi - lo) * c.rng.f(0.1, 0.9)) * 1e3).round() / 1e3;
                lines.push(guess(c, n, g));
            }
            c.count("nothing within the bounds");
        }
        _ => {
            // A system without a solution within the bounds
            let y = pool[1];
            let (a, b) = (c.rng.range(-20, 20) as f64 / 2.0, c.rng.range(-20, 20) as f64 / 2.0);
            lines = vec![format!("{n} + {y} = {}", a + b), format!("{n} - {y} = {}", a - b)];
            let (k, v) = if c.rng.chance(0.5) { (n, a) } else { (y, b) };
            let (lo, hi) = if c.rng.chance(0.5) { (v + 0.5, v + 20.0) } else { (v - 20.0, v - 0.5) };
            lines.push(keep(c, k, lo, hi));
            let g = ((lo + c.rng.unit() * (hi - lo)) * 100.0).round() / 100.0;
            lines.push(guess(c, k, g));
            c.count("no system within the bounds");
        }
    }
    c.rng.shuffle(&mut lines);
    let text = lines.join("\n");
    c.seen(&text);
    let got = solve(&text, 1e-7, 60);
    c.check(matches!(&got, Ok(Err(_))), "unsatisfiable", || format!("{text}\n{got:?}"));
}

/// What the caller declares and what the text declares hold together, in text that is prepared and in what is solved.
fn together(c: &mut Ctx, pool: &[&str]) {
    let mut declared: HashMap<String, [f64; 3]> = HashMap::new();
    let mut want: HashMap<String, [f64; 3]> = HashMap::new();
    let mut lines = vec![];
    for n in &pool[..c.rng.us(1, pool.len())] {
        let mut d = [1.0, f64::NEG_INFINITY, f64::INFINITY];
        let (g, lo) = (c.rng.range(-400, 400) as f64 / 8.0, c.rng.range(-400, 400) as f64 / 8.0);
        let hi = lo + c.rng.range(1, 400) as f64 / 8.0;
        // Which half comes from where
        let (caller_g, text_g) = (c.rng.chance(0.5), c.rng.chance(0.5));
        let (caller_b, text_b) = (c.rng.chance(0.5), c.rng.chance(0.5));
        if caller_g || caller_b {
            let mut e = d;
            if caller_g {
                e[0] = g + if text_g { 7.0 } else { 0.0 };
            }
            if caller_b {
                e[1] = lo - if text_b { 3.0 } else { 0.0 };
                e[2] = hi + if text_b { 5.0 } else { 0.0 };
            }
            declared.insert(n.to_string(), e);
            d = e;
        }
        let mut said = vec![];
        if text_g {
            d[0] = g;
            said.push(guess(c, n, g));
        }
        if text_b {
            d[1] = lo;
            d[2] = hi;
            said.push(keep(c, n, lo, hi));
        }
        if (caller_g || caller_b) && !said.is_empty() {
            c.count("declared by both");
        }
        if caller_g || caller_b || text_g || text_b {
            want.insert(n.to_string(), d);
        }
        lines.extend(said);
    }
    c.rng.shuffle(&mut lines);
    let text = format!("{}\nunrelated = 4", lines.join("\n"));
    c.seen(&format!("{text}{declared:?}"));
    c.count("declared together");
    let before = declared.clone();
    let got = cut(|| {
        let mut ctx = geqslib::shunting::new_context();
        let left = nexsys::parsing::compile(&text, &mut ctx, &mut declared);
        (left, declared.clone())
    });
    match got {
        Err(m) => c.fail("panic", format!("{text} with {before:?}: {m}")),
        Ok((left, d)) => {
            c.check(d == want, "declared-together", || format!("{text}\nwith {before:?}\ngives {d:?}\nnot {want:?} ({left:?})"));
        }
    }
}
