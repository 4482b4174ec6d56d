//! S02, S03: the solver of several equations in as many unknowns.
use crate::names::POOL;
use geqslib::newton::multivariate_newton_raphson;
use geqslib::shunting::{new_context};
use geqslib::system::SystemBuilder;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use vmon::expr::{self, bin, eval, num, Env, X};
use vmon::{cut, cut_small, invert_dense, Ctx};

fn norm(v: impl IntoIterator<Item = f64>) -> f64 {
    v.into_iter().map(|x| x * x).sum::<f64>().sqrt()
}

fn number(v: f64) -> X {
    if v < 0.0 { X::Neg(Box::new(num(format!("{}", -v)))) } else { num(format!("{v}")) }
}

type Fun = Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>;

/// S02: an answer makes the system vector as small as was asked.
pub fn soundness(c: &mut Ctx) {
    if c.rng.chance(0.0006) {
        return patience(c);
    }
    if c.rng.chance(0.004) {
        return together(c);
    }
    match c.rng.below(10) {
        0..=3 => closures(c),
        4..=8 => texts(c),
        _ => refused(c),
    }
}

/// A system without a solution, and a search that may take long: it ends, with an error.
fn patience(c: &mut Ctx) {
    let limit = *c.rng.pick(&[10_000, 20_000, 40_000]);
    let n = c.rng.us(1, 2);
    let (a, b) = (c.rng.f(0.5, 3.0), c.rng.f(-2.0, 2.0));
    let mut g: HashMap<usize, f64> = (0..n).map(|i| (i, c.rng.f(-5.0, 5.0))).collect();
    let fs: Vec<_> = (0..n).map(|i| move |p: &HashMap<usize, f64>| -> anyhow::Result<f64> {
        Ok((p[&i] - b).powi(2) + a + if i > 0 { p[&0] / 8.0 } else { 0.0 })
    }).collect();
    c.seen("long search");
    c.count("long searches");
    match cut_small(|| multivariate_newton_raphson(fs, &mut g, 1e-6, limit).map(|m| m.clone())) {
        Err(p) => c.fail("panic", format!("long search for {n} unknowns in {limit}: {p}")),
        Ok(r) => { c.check(r.is_err(), "residual", || format!("(x - {b})^2 + {a} = 0 in {limit}: {r:?}")); }
    }
}

/// Equations whose errors shrink at one pace: their sum decides, not the largest of them.
fn together(c: &mut Ctx) {
    let n = c.rng.us(1, 14);
    let (k, d, w) = (c.rng.f(1.0, 90.0), c.rng.us(2, 3) as i32, *c.rng.pick(&[0.0, 0.01]));
    let root: Vec<f64> = (0..n).map(|_| if c.rng.chance(0.5) { 1.0 } else { c.rng.f(0.8, 1.2) }).collect();
    let off = |p: &HashMap<usize, f64>, i: usize| k * (p[&i].powi(d) - root[i].powi(d)) + w * (p[&((i + 1) % n)] - root[(i + 1) % n]);
    let margin = 10f64.powf(c.rng.f(-7.0, 0.0));
    let limit = c.rng.us(3, 40);
    let start = c.rng.f(1.5, 4.0);
    let mut g: HashMap<usize, f64> = (0..n).map(|i| (i, start)).collect();
    let fs: Vec<_> = (0..n).map(|i| { let off = &off; move |p: &HashMap<usize, f64>| -> anyhow::Result<f64> { Ok(off(p, i)) } }).collect();
    let res = cut(|| multivariate_newton_raphson(fs, &mut g, margin, limit).map(|m| m.clone()));
    let what = || format!("{k} * (x_i^{d} - r_i^{d}) + {w} * (x_j - r_j), r = {root:?}, from {start} to within {margin} in {limit}");
    c.seen(&format!("{n} {d} {}", margin.log10() as i32));
    match res {
        Err(p) => c.fail("panic", format!("{}: {p}", what())),
        Ok(Err(_)) => c.count("no answer"),
        Ok(Ok(p)) => {
            c.count("equations of one pace");
            let e = norm((0..n).map(|i| off(&p, i)));
            c.check(e <= margin * (1.0 + 1e-6) + 1e-11, "residual", || format!("{}: {p:?} is off by {e}", what()));
        }
    }
}

struct Nonlinear {
    vars: Vec<String>,
    lhs: Vec<X>,
    rhs: Vec<X>,
    at: Vec<f64>,
}

/// Equations around a point that solves them all (unless one is spoilt).
fn nonlinear(c: &mut Ctx) -> Option<Nonlinear> {
    let n = if c.rng.chance(0.02) { c.rng.us(5, 10) } else { c.rng.us(1, 4) };
    let mut pool: Vec<&str> = POOL.to_vec();
    c.rng.shuffle(&mut pool);
    let vars: Vec<String> = pool[..n].iter().map(|s| s.to_string()).collect();
    let env = Env::standard();
    let mut funcs: Vec<(String, usize)> = ["sin", "cos", "arctan", "tanh", "abs"].iter().map(|f| (f.to_string(), 1)).collect();
    funcs.sort();
    let at: Vec<f64> = (0..n).map(|_| c.rng.f(0.3, 4.0)).collect();
    let mut here = env.clone();
    for (v, x) in vars.iter().zip(&at) {
        here.vals.insert(v.clone(), *x);
    }
    let (mut lhs, mut rhs) = (vec![], vec![]);
    for i in 0..n {
        // Its own variable keeps the system from being singular as a rule
        let k = c.rng.f(1.0, 4.0);
        let own = bin('*', number((k * 100.0).round() / 100.0), expr::name(&vars[i]));
        let d = c.rng.us(1, 3);
        let other = expr::random(&mut c.rng, &vars, &funcs, d);
        let l = bin(*c.rng.pick(&['+', '-']), own, other);
        let r = if c.rng.chance(0.3) { expr::random(&mut c.rng, &vars, &funcs, 1) } else { num("0") };
        let off = eval(&l, &here, &mut None).ok()? - eval(&r, &here, &mut None).ok()?;
        if !off.is_finite() || off.abs() > 1e6 {
            return None;
        }
        let spoil = if c.rng.chance(0.05) { 1e3 } else { 0.0 };
        lhs.push(l);
        rhs.push(bin('+', r, number(off + spoil)));
    }
    Some(Nonlinear { vars, lhs, rhs, at })
}

fn residuals(s: &Nonlinear, p: &HashMap<String, f64>) -> Vec<f64> {
    let mut e = Env::standard();
    for (k, v) in p {
        e.vals.insert(k.clone(), *v);
    }
    s.lhs.iter().zip(&s.rhs).map(|(l, r)| {
        match (eval(l, &e, &mut None), eval(r, &e, &mut None)) {
            (Ok(a), Ok(b)) => a - b,
            _ => f64::NAN,
        }
    }).collect()
}

fn noise(s: &Nonlinear, p: &HashMap<String, f64>, c: &mut Ctx) -> f64 {
    let mut e = Env::standard();
    for (k, v) in p {
        e.vals.insert(k.clone(), *v);
    }
    let mut worst: f64 = 0.0;
    for x in s.lhs.iter().chain(&s.rhs) {
        if let Some((_, t)) = expr::judge(x, &e, &mut c.rng) {
            worst = worst.max(t);
        } else {
            return f64::INFINITY;
        }
    }
    worst * 10.0
}

fn closures(c: &mut Ctx) {
    let Some(s) = nonlinear(c) else { return c.count("skipped") };
    let n = s.vars.len();
    let margin = *c.rng.pick(&[0.1, 1e-2, 1e-3, 1e-5]);
    let limit = c.rng.us(1, 40);
    let guess: HashMap<String, f64> = s.vars.iter().zip(&s.at).map(|(v, x)| (v.clone(), x + c.rng.f(-0.5, 0.5))).collect();
    let fail_at = if c.rng.chance(0.2) { c.rng.us(1, 5 * n * n) } else { usize::MAX };
    let calls = RefCell::new((0usize, false, 0usize));
    let mut g = guess.clone();
    let res = cut(|| {
        let fs: Vec<_> = (0..n).map(|i| {
            let (s, calls) = (&s, &calls);
            move |p: &HashMap<String, f64>| -> anyhow::Result<f64> {
                let mut k = calls.borrow_mut();
                k.0 += 1;
                if p.len() != n {
                    k.2 += 1;
                }
                if k.0 == fail_at {
                    k.1 = true;
                    anyhow::bail!("injected");
                }
                Ok(residuals(s, p)[i])
            }
        }).collect();
        multivariate_newton_raphson(fs, &mut g, margin, limit).map(|m| m.clone())
    });
    let text = || format!("{:?} = {:?} from {guess:?} to within {margin} in {limit}", s.lhs, s.rhs);
    let res = match res {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{}: {p}", text())),
    };
    let (count, met, partial) = calls.into_inner();
    c.check(partial == 0, "partial-point", || format!("{}: evaluated at a point that lacks variables", text()));
    c.check(count <= n * (2 * n + 6) * limit + 8, "evaluations", || format!("{}: {count} evaluations", text()));
    if met {
        c.count("faults met");
        c.check(res.is_err(), "fault", || format!("{}: an evaluation failed, but the answer is {res:?}", text()));
        return;
    }
    if let Ok(p) = &res {
        c.count("answers of functions");
        let off = norm(residuals(&s, p));
        let tol = noise(&s, p, c);
        c.check(off <= margin * (1.0 + 1e-9) + tol, "residual", || format!("{}: {p:?} is off by {off}", text()));
        c.check(p.keys().collect::<BTreeSet<_>>() == guess.keys().collect::<BTreeSet<_>>(), "keys", || format!("{}: {p:?}", text()));
        c.seen(&format!("{:?}", s.lhs.iter().map(expr::shape).collect::<Vec<_>>()));
    } else {
        c.count("no answer");
    }
}

fn texts(c: &mut Ctx) {
    let Some(s) = nonlinear(c) else { return c.count("skipped") };
    let n = s.vars.len();
    let margin = *c.rng.pick(&[0.1, 1e-2, 1e-3, 1e-5]);
    let limit = c.rng.us(5, 60);
    let mut eqs: Vec<String> = (0..n).map(|i| {
        let (l, r) = (expr::print(&s.lhs[i], &mut c.rng, &expr::BLANKS), expr::print(&s.rhs[i], &mut c.rng, &expr::BLANKS));
        if c.rng.chance(0.5) { format!("{l}={r}") } else { format!("{r} = {l}") }
    }).collect();
    c.rng.shuffle(&mut eqs);
    let guesses: HashMap<String, f64> = s.vars.iter().zip(&s.at).map(|(v, x)| (v.clone(), x + c.rng.f(-0.3, 0.3))).collect();
    let bounds: HashMap<String, (f64, f64)> = s.vars.iter().map(|v| {
        let g = guesses[v];
        (v.clone(), if c.rng.chance(0.3) { (g - c.rng.f(0.0, 2.0), g + c.rng.f(0.0, 2.0)) } else { (f64::NEG_INFINITY, f64::INFINITY) })
    }).collect();
    let res = cut(|| -> anyhow::Result<Option<HashMap<String, f64>>> {
        let mut b = SystemBuilder::new(&eqs[0], new_context())?;
        b.try_fully_constrain_with(eqs[1..].iter().map(|e| e.as_str()).collect())?;
        let vars = b.get_vars().clone();
        let Some(mut sys) = b.build_system() else { return Ok(None) };
        for v in &vars {
            sys.specify_variable(v, guesses[v], bounds[v].0, bounds[v].1);
        }
        Ok(Some(sys.solve(margin, limit)?))
    });
    let text = || format!("{eqs:?} from {guesses:?} in {bounds:?} to within {margin}");
    let res = match res {
        Ok(r) => r,
        Err(p) => return c.fail("panic", format!("{}: {p}", text())),
    };
    match res {
        Ok(None) => c.count("not constrained"),
        Err(_) => c.count("no answer"),
        Ok(Some(p)) => {
            c.count("answers of texts");
            let names: BTreeSet<&str> = p.keys().map(|k| k.as_str()).collect();
            let off = norm(residuals(&s, &p));
            let all: BTreeSet<&str> = s.vars.iter().map(|k| k.as_str()).collect();
            // Which equations became part of the system is S04's concern
            if names == all {
                let tol = noise(&s, &p, c);
                c.check(off <= margin * (1.0 + 1e-9) + tol, "residual", || format!("{}: {p:?} is off by {off}", text()));
            } else {
                c.check(names.is_subset(&all) && !names.is_empty(), "names", || format!("{}: {p:?}", text()));
            }
            c.seen(&eqs.join("\n"));
            c.sample("system", || format!("{eqs:?} -> {p:?}"));
        }
    }
}

/// Systems without an answer, and settings that are refused.
fn refused(c: &mut Ctx) {
    let n = c.rng.us(1, 4);
    let keys: Vec<u32> = (0..n as u32).map(|i| i * 7 + 3).collect();
    let rows: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 8.0 } else { c.rng.f(-2.0, 2.0) }).collect()).collect();
    let kind = c.rng.below(6);
    let mut count = n;
    let (mut margin, mut limit) = (1e-4, 30);
    let mut rows = rows;
    let mut rhs: Vec<f64> = (0..n).map(|_| c.rng.f(-9.0, 9.0)).collect();
    match kind {
        0 => margin = *c.rng.pick(&[0.0, -0.0]),
        1 => margin = *c.rng.pick(&[-1e-3, -5e-324, -1e-16, -1e10, f64::NEG_INFINITY, f64::NAN]),
        2 => limit = 0,
        3 => count = n + 1,
        4 => count = n - 1,
        _ => {
            // Two equations that contradict each other
            if n < 2 {
                return c.count("skipped");
            }
            rows[1] = rows[0].clone();
            rhs[1] = rhs[0] + 10.0;
        }
    }
    let fs: Vec<Box<dyn Fn(&HashMap<u32, f64>) -> anyhow::Result<f64>>> = (0..count).map(|i| {
        let row = rows[i % n].clone();
        let (b, keys) = (rhs[i % n], keys.clone());
        let f: Box<dyn Fn(&HashMap<u32, f64>) -> anyhow::Result<f64>> =
            Box::new(move |p| Ok(row.iter().zip(&keys).map(|(a, k)| a * p[k]).sum::<f64>() - b));
        f
    }).collect();
    let mut g: HashMap<u32, f64> = keys.iter().map(|k| (*k, 1.0)).collect();
    match cut(|| multivariate_newton_raphson(fs, &mut g, margin, limit).map(|m| m.clone())) {
        Err(p) => {
            // No equations at all: an empty matrix is refused in its own way
            if count > 0 {
                c.fail("panic", format!("kind {kind}, {n} unknowns, {count} equations: {p}"))
            }
        }
        Ok(r) => {
            c.count("refused");
            c.check(r.is_err(), "should-fail", || {
                format!("{n} unknowns, {count} equations {rows:?} = {rhs:?}, margin {margin}, limit {limit}: {r:?}")
            });
        }
    }
    c.seen(&format!("{kind}{n}"));
}

/// S03: systems of linear equations that determine their unknowns well are solved.
/// Where the search starts: near, or far away.
fn guess(c: &mut Ctx) -> f64 {
    match c.rng.below(8) {
        0..=3 => 1.0,
        4..=5 => c.rng.f(-50.0, 50.0),
        _ => c.rng.f(-1.0, 1.0) * 10f64.powi(c.rng.range(2, 7) as i32),
    }
}

pub fn completeness(c: &mut Ctx) {
    let n = if c.thorough { c.rng.us(1, 12) } else { c.rng.us(1, 8) };
    let style = c.rng.below(5);
    let scale = *c.rng.pick(&[1.0, 1.0, 10.0, 0.1]);
    let a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| {
        let v = c.rng.f(-1.0, 1.0) * scale;
        let v = match style {
            0 => v,
            1 => c.rng.range(-3, 3) as f64,
            2 => if i == j || c.rng.chance(0.3) { v + scale * v.signum() } else { 0.0 },
            // Zero diagonals, as a system of flows has them
            3 => if i == j && i > 0 { 0.0 } else { v },
            // A chain: each unknown is tied to its neighbours
            _ => if i == j { 2.0 * scale } else if i + 1 == j || j + 1 == i { -scale } else { 0.0 },
        };
        (v * 64.0).round() / 64.0
    }).collect()).collect();
    let want: Vec<f64> = (0..n).map(|_| (c.rng.f(-50.0, 50.0) * 8.0).round() / 8.0).collect();
    let Some((_, cond)) = invert_dense(&a) else { return c.count("singular") };
    if cond > 3e3 {
        return c.count("ill-conditioned");
    }
    // In other units, all of it or each equation
    let units = if c.rng.chance(0.3) { c.rng.range(-9, 3) as i32 } else { 0 };
    let each = c.rng.chance(0.3);
    let a: Vec<Vec<f64>> = a.into_iter().map(|row| {
        let k = 10f64.powi(units + if each { c.rng.range(-1, 1) as i32 } else { 0 });
        row.into_iter().map(|v| v * k).collect()
    }).collect();
    if units != 0 {
        c.count("in other units");
    }
    let b: Vec<f64> = a.iter().map(|r| r.iter().zip(&want).map(|(x, y)| x * y).sum()).collect();
    let margin = *c.rng.pick(&[0.5, 1e-2, 1e-4, 1e-6]);
    let mut pool: Vec<&str> = POOL.to_vec();
    c.rng.shuffle(&mut pool);
    let vars: Vec<String> = pool[..n].iter().map(|s| s.to_string()).collect();
    let limit = 25;
    let text;
    let res: Result<anyhow::Result<HashMap<String, f64>>, String>;
    if c.rng.chance(0.5) {
        let mut g: HashMap<String, f64> = vars.iter().map(|v| (v.clone(), guess(c))).collect();
        text = format!("{a:?} * {vars:?} = {b:?} from {g:?}");
        let (a, b, vars) = (a.clone(), b.clone(), vars.clone());
        res = cut(move || {
            let fs: Vec<Fun> = (0..n).map(|i| {
                let (row, b, vars) = (a[i].clone(), b[i], vars.clone());
                let f: Fun = Box::new(move |p| Ok(row.iter().zip(&vars).map(|(k, v)| k * p[v]).sum::<f64>() - b));
                f
            }).collect();
            multivariate_newton_raphson(fs, &mut g, margin, limit).map(|m| m.clone())
        });
        c.count("of functions");
    } else {
        let mut eqs: Vec<String> = (0..n).map(|i| {
            let mut terms: Vec<(f64, &str)> = a[i].iter().zip(&vars).filter(|t| *t.0 != 0.0).map(|(k, v)| (*k, v.as_str())).collect();
            c.rng.shuffle(&mut terms);
            let cutat = c.rng.below(terms.len() + 1);
            // Some of the terms move to the other side
            let side = |t: &[(f64, &str)], s: f64| t.iter().map(|(k, v)| {
                let k = k * s;
                if k < 0.0 { format!("(-{}) * {v}", -k) } else { format!("{k} * {v}") }
            }).collect::<Vec<_>>();
            let (l, mut r) = (side(&terms[..cutat], 1.0), side(&terms[cutat..], -1.0));
            r.push(if b[i] < 0.0 { format!("(-{})", -b[i]) } else { format!("{}", b[i]) });
            format!("{} = {}", if l.is_empty() { "0".into() } else { l.join(" + ") }, r.join(" + "))
        }).collect();
        c.rng.shuffle(&mut eqs);
        let text1 = format!("{eqs:?}");
        // The order in which equations become part of the system, found here as well
        let sets: Vec<BTreeSet<&str>> = eqs.iter().map(|e| vars.iter().map(|v| v.as_str())
            .filter(|v| geqslib::shunting::get_legal_variables_iter(e).any(|w| w == *v)).collect()).collect();
        let mut known = sets[0].clone();
        let mut used = vec![0];
        loop {
            let next = (0..n).find(|i| !used.contains(i) && sets[*i].difference(&known).count() <= 1);
            let Some(i) = next else { break };
            if used.len() == known.len() {
                break;
            }
            used.push(i);
            known.extend(sets[i].iter());
        }
        if used.len() != n || known.len() != n {
            return c.count("not one system");
        }
        let eqs2 = eqs.clone();
        let mut starts = vec![];
        for v in &vars {
            if c.rng.chance(0.3) {
                starts.push((v.clone(), guess(c)));
            }
        }
        text = format!("{text1} from {starts:?}");
        res = cut(move || -> anyhow::Result<HashMap<String, f64>> {
            let mut b = SystemBuilder::new(&eqs2[0], new_context())?;
            b.try_fully_constrain_with(eqs2[1..].iter().map(|e| e.as_str()).collect())?;
            let mut sys = b.build_system().ok_or_else(|| anyhow::anyhow!("not fully constrained"))?;
            for (v, g) in &starts {
                sys.specify_variable(v, *g, f64::NEG_INFINITY, f64::INFINITY);
            }
            sys.solve(margin, limit)
        });
        c.count("of texts");
    }
    match res {
        Err(p) => c.fail("panic", format!("{text}: {p}")),
        Ok(Err(e)) => c.fail("not-solved", format!("{text} to within {margin}: {e}, but {want:?} solves it (condition {cond:.0})")),
        Ok(Ok(p)) => {
            let off = norm(vars.iter().zip(&want).map(|(v, w)| p.get(v).copied().unwrap_or(f64::NAN) - w));
            let tol = margin * 1.02 + 1e-12 * cond * cond * 100.0 + 1e-9;
            c.check(off <= tol && p.len() == n, "distance", || format!("{text} to within {margin}: {p:?}, but {want:?} solves it"));
            c.sample("linear system", || format!("{text} -> {p:?}"));
        }
    }
    c.seen(&text);
    c.count(&format!("size {n}"));
}

