//! Well-posed programs with known solutions.
use std::collections::HashMap;
use vmon::expr::{self, bin, eval, name, num, Env, X};
use vmon::Ctx;

pub const NAMES: [&str; 34] = ["x", "y", "z", "a", "b", "x1", "x10", "x_2", "Temp", "E", "PI", "e1", "sinx", "log2", "iffy", "endo",
    "guessx", "keepit", "constant", "elsewhere", "for1", "on_x", "bend", "q0e", "R", "snake_case_1", "CamelCase2", "pi2",
    "ee", "abs_", "orif", "thrift", "nan", "Infinity"];

pub struct Eqn {
    pub l: X,
    pub r: X,
}

#[derive(Default)]
pub struct Prog {
    pub eqs: Vec<Eqn>,
    /// Unknowns and the values that solve the program.
    pub at: Vec<(String, f64)>,
    pub consts: Vec<(String, f64)>,
    /// Some coefficients are no larger than others: how far a solution may be off depends on all of them.
    pub wild: bool,
}

pub fn number(v: f64) -> X {
    if v < 0.0 { X::Neg(Box::new(num(format!("{}", -v)))) } else { num(format!("{v}")) }
}

fn eighths(v: f64) -> f64 {
    (v * 8.0).round() / 8.0
}

/// The largest sum of absolute values of a row of the inverse; none if there is no inverse.
fn inverse_norm(a: &[Vec<f64>]) -> Option<f64> {
    let n = a.len();
    let mut w: Vec<Vec<f64>> = a.iter().enumerate().map(|(i, r)| {
        r.iter().copied().chain((0..n).map(|j| if i == j { 1.0 } else { 0.0 })).collect()
    }).collect();
    for j in 0..n {
        let p = (j..n).max_by(|x, y| w[*x][j].abs().total_cmp(&w[*y][j].abs()))?;
        w.swap(j, p);
        let k = w[j][j];
        if k.abs() < 1e-9 {
            return None;
        }
        w[j].iter_mut().for_each(|x| *x /= k);
        for i in 0..n {
            let k = w[i][j];
            if i != j && k != 0.0 {
                for x in 0..2 * n {
                    w[i][x] -= k * w[j][x];
                }
            }
        }
    }
    Some(w.iter().map(|r| r[n..].iter().map(|x| x.abs()).sum()).fold(0.0, f64::max))
}

/// The name at the edge of an expression.
fn edge(x: &mut X, left: bool) -> Option<&mut String> {
    match x {
        X::Name(n) => Some(n),
        X::Bin(_, a, b) => edge(if left { a } else { b }, left),
        X::Neg(a) if !left => edge(a, left),
        _ => None,
    }
}

impl Prog {
    pub fn env(&self) -> Env {
        let mut e = Env::standard();
        for (k, v) in self.consts.iter().chain(&self.at) {
            e.vals.insert(k.clone(), *v);
        }
        e
    }

    /// The coefficients of a block of equations: most of them full with a heavy diagonal, others rings,
    /// sparse or small whole numbers.
    fn coefficients(&mut self, c: &mut Ctx, n: usize, linear: bool) -> Vec<Vec<f64>> {
        let kind = if n > 4 { *c.rng.pick(&[4, 5, 5]) } else { c.rng.below(10) };
        loop {
            let mut a = vec![vec![0.0; n]; n];
            for i in 0..n {
                for j in 0..n {
                    let ring = j == i || j == (i + 1) % n;
                    let k: f64 = match kind {
                        0..=5 if i == j => c.rng.f(6.0, 9.0),
                        // Rings, and rings with some more
                        4 | 5 if !ring && !(kind == 5 && c.rng.chance(0.3)) => 0.0,
                        0..=5 => c.rng.f(0.5, 1.5),
                        _ if !linear => if i == j { c.rng.f(6.0, 9.0) } else { c.rng.f(0.5, 1.5) },
                        6 | 7 if !ring => 0.0,
                        _ => *c.rng.pick(&[1.0, 1.0, 2.0, 3.0, 0.5, 0.0]),
                    };
                    a[i][j] = eighths(if c.rng.chance(0.5) { -k } else { k });
                }
            }
            if kind < 6 || !linear {
                return a;
            }
            if inverse_norm(&a).is_some_and(|s| s < 20.0) {
                self.wild = true;
                return a;
            }
        }
    }

    /// How far the unknowns of linear equations may move when no equation is off by more than one.
    pub fn sensitivity(&self) -> Option<f64> {
        let mut env = self.env();
        let mut off = |at: Option<usize>| -> Option<Vec<f64>> {
            for (i, (n, _)) in self.at.iter().enumerate() {
                env.vals.insert(n.clone(), if Some(i) == at { 1.0 } else { 0.0 });
            }
            self.eqs.iter().map(|e| Some(eval(&e.l, &env, &mut None).ok()? - eval(&e.r, &env, &mut None).ok()?)).collect()
        };
        let zero = off(None)?;
        let mut a = vec![vec![0.0; self.at.len()]; self.eqs.len()];
        for j in 0..self.at.len() {
            let one = off(Some(j))?;
            for i in 0..self.eqs.len() {
                a[i][j] = one[i] - zero[i];
            }
        }
        inverse_norm(&a)
    }

    /// Blocks of equations; each uses the unknowns of earlier blocks as it likes.
    pub fn random(c: &mut Ctx, linear: bool) -> Option<Prog> {
        let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        c.rng.shuffle(&mut names);
        let mut p = Prog::default();
        for _ in 0..c.rng.us(0, 2) {
            let v = eighths(c.rng.f(-9.0, 9.0));
            p.consts.push((names.pop()?, v));
        }
        let blocks = c.rng.us(1, 4);
        for _ in 0..blocks {
            // Rings of many equations share no unknown with most of the others
            let k = if c.rng.chance(0.08) { c.rng.us(5, 8) } else { *c.rng.pick(&[1, 1, 1, 2, 2, 3, 4]) };
            let here: Vec<String> = (0..k).filter_map(|_| names.pop()).collect();
            let earlier: Vec<(String, f64)> = p.at.clone();
            for n in &here {
                let v = if linear { eighths(c.rng.f(-20.0, 20.0)) } else { c.rng.f(0.3, 4.0) };
                p.at.push((n.clone(), v));
            }
            let env = p.env();
            let rows = p.coefficients(c, here.len(), linear);
            for row in &rows {
                let mut terms: Vec<X> = vec![];
                for (n, k) in here.iter().zip(row) {
                    if *k == 0.0 {
                        continue; // not in this equation
                    }
                    let k = *k;
                    terms.push(if c.rng.chance(0.2) { bin('*', name(n), number(k)) } else { bin('*', number(k), name(n)) });
                }
                for (n, _) in &earlier {
                    if c.rng.chance(0.3) {
                        let k = eighths(c.rng.f(-2.0, 2.0));
                        terms.push(bin('*', number(k), name(n)));
                    }
                }
                for (n, _) in &p.consts {
                    if c.rng.chance(0.5) {
                        terms.push(name(n));
                    }
                }
                if !linear {
                    let all: Vec<String> = here.iter().cloned().chain(earlier.iter().map(|e| e.0.clone())).collect();
                    let funcs: Vec<(String, usize)> = ["sin", "cos", "arctan", "tanh"].iter().map(|f| (f.to_string(), 1)).collect();
                    terms.push(expr::random(&mut c.rng, &all, &funcs, 2));
                }
                c.rng.shuffle(&mut terms);
                let at = c.rng.below(terms.len());
                let right = terms.split_off(at.max(1).min(terms.len()));
                let sum = |t: Vec<X>, c: &mut Ctx| t.into_iter().reduce(|a, b| bin(*c.rng.pick(&['+', '-']), a, b));
                let l = sum(terms, c)?;
                let r = sum(right, c);
                let off = eval(&l, &env, &mut None).ok()?
                    - match &r { Some(r) => eval(r, &env, &mut None).ok()?, None => 0.0 };
                if !off.is_finite() || off.abs() > 1e5 {
                    return None;
                }
                let k = number(off);
                let r = match r {
                    None => k,
                    Some(r) => bin('+', r, k),
                };
                p.eqs.push(if c.rng.chance(0.5) { Eqn { l, r } } else { Eqn { l: r, r: l } });
            }
        }
        // The signs of the terms were chosen after the coefficients
        if p.wild && !p.sensitivity().is_some_and(|s| s < 100.0) {
            return None;
        }
        Some(p)
    }

    pub fn equations(&self, c: &mut Ctx) -> Vec<String> {
        self.eqs.iter().map(|e| {
            let (l, r) = (expr::print(&e.l, &mut c.rng, &expr::SPACES), expr::print(&e.r, &mut c.rng, &expr::SPACES));
            if c.rng.chance(0.5) { format!("{l} = {r}") } else { format!("{l}={r}") }
        }).collect()
    }

    /// Adds an equation whose text contains the text of another one, though it is about an unknown of its own.
    pub fn twin(&mut self, texts: &mut Vec<String>, c: &mut Ctx) -> bool {
        let i = c.rng.below(texts.len());
        let text = texts[i].clone();
        let front = c.rng.chance(0.5);
        let Some((_, v)) = self.at.iter().find(|(n, _)| match front {
            true => text.strip_prefix(n.as_str()).is_some_and(|t| t.starts_with([' ', '*', '+', '-', '='])),
            false => text.strip_suffix(n.as_str()).is_some_and(|t| t.ends_with([' ', '*', '+', '-', '='])),
        }) else { return false };
        let v = *v;
        let extra = *c.rng.pick(&["q", "x", "r_"]);
        let (mut l, mut r) = (self.eqs[i].l.clone(), self.eqs[i].r.clone());
        // Sides are printed in either order of the equation
        let Some(leaf) = (if front { edge(&mut l, true) } else { edge(&mut r, false) }) else { return false };
        let new = if front { format!("{extra}{leaf}") } else { format!("{leaf}{extra}") };
        if self.at.iter().any(|a| a.0 == new) || self.consts.iter().any(|a| a.0 == new) || NAMES.contains(&new.as_str()) {
            return false;
        }
        *leaf = new.clone();
        let mut env = self.env();
        let mut off = |x: f64| {
            env.vals.insert(new.clone(), x);
            Some(eval(&l, &env, &mut None).ok()? - eval(&r, &env, &mut None).ok()?)
        };
        let (Some(here), Some(there)) = (off(v), off(v + 1.0)) else { return false };
        if !((there - here).abs() >= 0.5) || !(here.abs() < 1e-9) {
            return false;
        }
        texts.push(if front { format!("{extra}{text}") } else { format!("{text}{extra}") });
        self.eqs.push(Eqn { l, r });
        self.at.push((new, v));
        true
    }

    /// Guesses near the solution.
    pub fn guesses(&self, c: &mut Ctx) -> Vec<String> {
        self.at.iter().map(|(n, v)| format!("guess {:.4} for {n}", v + c.rng.f(-0.2, 0.2))).collect()
    }

    /// The worst of the equations at these values, and what rounding may add to it.
    pub fn residual(&self, soln: &HashMap<String, f64>, c: &mut Ctx) -> (f64, f64, usize) {
        let mut e = Env::standard();
        for (k, v) in &self.consts {
            e.vals.insert(k.clone(), *v);
        }
        for (k, _) in &self.at {
            e.vals.insert(k.clone(), soln.get(k).copied().unwrap_or(f64::NAN));
        }
        let (mut worst, mut tol, mut which) = (0.0f64, 0.0f64, 0);
        for (i, q) in self.eqs.iter().enumerate() {
            match (expr::judge(&q.l, &e, &mut c.rng), expr::judge(&q.r, &e, &mut c.rng)) {
                (Some((Ok(a), t)), Some((Ok(b), u))) => {
                    let off = (a - b).abs();
                    if !(off <= worst) {
                        worst = if off.is_nan() { f64::INFINITY } else { off };
                        which = i;
                    }
                    tol = tol.max(10.0 * (t + u));
                }
                _ => tol = f64::INFINITY,
            }
        }
        (worst, tol, which)
    }
}
