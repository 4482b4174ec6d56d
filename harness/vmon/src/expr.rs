//! An independent reference for the expression language: trees, printing,
//! recognition and evaluation, with a measure of how far rounding may carry.
use crate::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Num(String),
    Name(String),
    Neg(Box<X>),
    Bin(char, Box<X>, Box<X>),
    Call(String, Vec<X>),
}

pub fn num(s: impl Into<String>) -> X {
    X::Num(s.into())
}
pub fn name(s: &str) -> X {
    X::Name(s.into())
}
pub fn bin(op: char, a: X, b: X) -> X {
    X::Bin(op, Box::new(a), Box::new(b))
}
pub fn call(f: &str, args: Vec<X>) -> X {
    X::Call(f.into(), args)
}

impl Drop for X {
    // Long chains must not overflow the stack while they are dropped.
    fn drop(&mut self) {
        fn leaf(x: &X) -> bool {
            matches!(x, X::Num(_) | X::Name(_))
        }
        let mut todo: Vec<X> = vec![];
        fn take(x: &mut X, todo: &mut Vec<X>) {
            match x {
                X::Neg(a) if !leaf(a) => todo.push(std::mem::replace(&mut **a, X::Num(String::new()))),
                X::Bin(_, a, b) => {
                    if !leaf(a) {
                        todo.push(std::mem::replace(&mut **a, X::Num(String::new())));
                    }
                    if !leaf(b) {
                        todo.push(std::mem::replace(&mut **b, X::Num(String::new())));
                    }
                }
                X::Call(_, v) => todo.append(v),
                _ => {}
            }
        }
        take(self, &mut todo);
        while let Some(mut x) = todo.pop() {
            take(&mut x, &mut todo);
        }
    }
}

/// What names mean. Functions take their arguments in the order they are written.
#[derive(Clone, Default)]
pub struct Env {
    pub vals: HashMap<String, f64>,
    pub funcs: HashMap<String, (usize, fn(&[f64]) -> f64)>,
}

fn cond(a: &[f64]) -> f64 {
    let t = match a[1].round() as i64 {
        1 => a[0] == a[2],
        2 => a[0] <= a[2],
        3 => a[0] >= a[2],
        4 => a[0] < a[2],
        5 => a[0] > a[2],
        _ => a[0] != a[2],
    };
    if t { a[3] } else { a[4] }
}

pub const UNARY: [&str; 13] = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
    "ln", "log10", "abs", "abs"];

impl Env {
    /// What every default context knows.
    pub fn standard() -> Env {
        let mut e = Env::default();
        let mut f = |n: &str, k: usize, g: fn(&[f64]) -> f64| {
            e.funcs.insert(n.to_string(), (k, g));
        };
        f("sin", 1, |a| a[0].sin());
        f("cos", 1, |a| a[0].cos());
        f("tan", 1, |a| a[0].tan());
        f("arcsin", 1, |a| a[0].asin());
        f("arccos", 1, |a| a[0].acos());
        f("arctan", 1, |a| a[0].atan());
        f("sinh", 1, |a| a[0].sinh());
        f("cosh", 1, |a| a[0].cosh());
        f("tanh", 1, |a| a[0].tanh());
        f("ln", 1, |a| a[0].ln());
        f("log10", 1, |a| a[0].log10());
        f("abs", 1, |a| a[0].abs());
        f("log", 2, |a| a[1].log(a[0]));
        f("if", 5, cond);
        e.vals.insert("pi".into(), std::f64::consts::PI);
        e.vals.insert("e".into(), std::f64::consts::E);
        e
    }
    pub fn with(mut self, n: &str, v: f64) -> Env {
        self.vals.insert(n.into(), v);
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// Division by exactly zero.
    Division,
    /// The reference has no opinion.
    Unclear,
}

/// Evaluates; `noise` perturbs every intermediate result by that fraction.
pub fn eval(x: &X, env: &Env, noise: &mut Option<(&mut Rng, f64)>) -> Result<f64, Bad> {
    let v = match x {
        X::Num(s) => return s.parse().map_err(|_| Bad::Unclear),
        X::Name(n) => return env.vals.get(n).copied().ok_or(Bad::Unclear),
        X::Neg(a) => return Ok(-eval(a, env, noise)?),
        X::Bin(op, a, b) => {
            // Division by zero anywhere is an error; find the operands first.
            let a = eval(a, env, noise)?;
            let b = eval(b, env, noise)?;
            match op {
                '+' => a + b,
                '-' => a - b,
                '*' => a * b,
                '/' if b == 0.0 => return Err(Bad::Division),
                '/' => a / b,
                _ => a.powf(b),
            }
        }
        X::Call(f, args) => {
            let mut v = vec![];
            let mut failed = None;
            for (i, a) in args.iter().enumerate() {
                match eval(a, env, noise) {
                    Ok(x) => v.push(x),
                    // Whether the branch that is not taken is evaluated is not specified.
                    Err(_) if f == "if" && i >= 3 => {
                        failed = Some(Bad::Unclear);
                        v.push(0.0)
                    }
                    Err(e) => return Err(e),
                }
            }
            if let Some(e) = failed {
                return Err(e);
            }
            let (n, g) = env.funcs.get(f).ok_or(Bad::Unclear)?;
            if *n != v.len() {
                return Err(Bad::Unclear);
            }
            g(&v)
        }
    };
    Ok(match noise {
        Some((r, size)) => v * (1.0 + *size * (2.0 * r.unit() - 1.0)),
        None => v,
    })
}

/// The value of an expression and how far an honest implementation may be from it.
/// `None`: too sensitive to rounding to say anything.
pub fn judge(x: &X, env: &Env, rng: &mut Rng) -> Option<(Result<f64, Bad>, f64)> {
    let v = eval(x, env, &mut None);
    if v == Err(Bad::Unclear) {
        return None;
    }
    let mut spread: f64 = 0.0;
    for _ in 0..4 {
        let w = eval(x, env, &mut Some((rng, 1e-13)));
        match (v, w) {
            (Err(a), Err(b)) if a == b => {}
            (Ok(a), Ok(b)) if a.is_nan() && b.is_nan() => {}
            (Ok(a), Ok(b)) if a == b => {}
            (Ok(a), Ok(b)) if a.is_finite() && b.is_finite() => spread = spread.max((a - b).abs()),
            _ => return None,
        }
    }
    let tol = match v {
        Ok(a) if a.is_finite() => {
            if spread > 1e-5 * a.abs() + 1e-290 && spread > 1e-9 {
                return None;
            }
            20.0 * spread + 1e-11 * a.abs() + 1e-290
        }
        _ => 0.0,
    };
    Some((v, tol))
}

/// Is `got` the value the reference found?
pub fn agrees(want: Result<f64, Bad>, tol: f64, got: Result<f64, ()>) -> bool {
    match (want, got) {
        (Err(_), Err(_)) => true,
        (Ok(a), Ok(b)) => a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol,
        _ => false,
    }
}

// -------------------------------------------------------------------- printing

/// Writes an expression as tokens, with parentheses where the grammar needs them
/// and, now and then, where it does not.
pub fn tokens(x: &X, level: u8, rng: &mut Rng, extra: f64, out: &mut Vec<String>) {
    let own = match x {
        X::Bin('+', ..) | X::Bin('-', ..) => 0,
        X::Bin('*', ..) | X::Bin('/', ..) => 1,
        X::Neg(_) => 2,
        X::Bin(..) => 3,
        _ => 4,
    };
    if own < level || (extra > 0.0 && rng.chance(extra)) {
        out.push("(".into());
        tokens(x, 0, rng, extra, out);
        out.push(")".into());
        return;
    }
    match x {
        X::Num(s) | X::Name(s) => out.push(s.clone()),
        X::Neg(a) => {
            out.push("-".into());
            tokens(a, 2, rng, extra, out);
        }
        X::Bin(op, a, b) => {
            let (l, r) = match op {
                '+' | '-' => (0, 1),
                '*' | '/' => (1, 2),
                _ => (4, 2),
            };
            tokens(a, l, rng, extra, out);
            out.push(op.to_string());
            tokens(b, r, rng, extra, out);
        }
        X::Call(f, args) => {
            out.push(f.clone());
            out.push("(".into());
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    out.push(",".into());
                }
                tokens(a, 0, rng, extra, out);
            }
            out.push(")".into());
        }
    }
}

fn is_word(t: &str) -> bool {
    !t.is_empty() && !"()^*/+-,=".contains(t)
}

/// Joins tokens with arbitrary white space. `blank`: what counts as white space here.
pub fn join(toks: &[String], rng: &mut Rng, density: f64, blank: &[&str]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let needed = (is_word(t) && is_word(&toks[i - 1]))
                // "1e" next to "-" would read as the start of "1e-3"
                || (is_word(&toks[i - 1]) && toks[i - 1].ends_with(['e', 'E'])
                    && toks[i - 1].starts_with(|c: char| c.is_ascii_digit() || c == '.'));
            if needed || rng.chance(density) {
                s += rng.pick(blank);
                if rng.chance(0.1) {
                    s += rng.pick(blank);
                }
            }
        }
        s += t;
    }
    s
}

pub fn print(x: &X, rng: &mut Rng, blank: &[&str]) -> String {
    let mut t = vec![];
    let extra = *rng.pick(&[0.0, 0.0, 0.1, 0.3]);
    tokens(x, 0, rng, extra, &mut t);
    let d = *rng.pick(&[0.0, 0.5, 1.0]);
    let mut s = join(&t, rng, d, blank);
    if rng.chance(0.1) {
        s = format!(" {s}");
    }
    if rng.chance(0.1) {
        s += " ";
    }
    s
}

pub const BLANKS: [&str; 4] = [" ", " ", "  ", "\t"];
pub const SPACES: [&str; 2] = [" ", "  "];

/// One way to write a number.
pub fn literal(rng: &mut Rng) -> String {
    match rng.below(11) {
        0 => format!("{}", rng.range(0, 9)),
        1 => format!("{}", rng.range(0, 1000)),
        2 => format!(".{}", rng.range(0, 99)),
        3 => format!("{}.", rng.range(0, 99)),
        4 => format!("{}e{}", rng.range(1, 9), rng.range(0, 3)),
        5 => format!("{}.{}e-{}", rng.range(1, 9), rng.range(0, 99), rng.range(0, 3)),
        6 => format!("{}.{}E+{}", rng.range(1, 9), rng.range(0, 99), rng.range(0, 2)),
        7 => format!("{:.4}", rng.f(0.0, 3.0)),
        8 => format!("{:.2}", rng.f(0.0, 100.0)),
        9 => format!("0.{:03}", rng.range(0, 999)),
        _ => format!("{}", rng.range(1, 4)),
    }
}

/// A random expression over the names and functions of `env`.
pub fn random(rng: &mut Rng, names: &[String], funcs: &[(String, usize)], depth: usize) -> X {
    if depth == 0 || rng.chance(0.12) {
        return if !names.is_empty() && rng.chance(0.5) { name(rng.pick(names)) } else { num(literal(rng)) };
    }
    let d = depth - 1;
    match rng.below(20) {
        0..=2 => X::Neg(Box::new(random(rng, names, funcs, d))),
        3..=5 => bin('+', random(rng, names, funcs, d), random(rng, names, funcs, d)),
        6..=8 => bin('-', random(rng, names, funcs, d), random(rng, names, funcs, d)),
        9..=11 => bin('*', random(rng, names, funcs, d), random(rng, names, funcs, d)),
        12..=14 => bin('/', random(rng, names, funcs, d), random(rng, names, funcs, d)),
        15..=16 => {
            // Mostly exponents that keep the value in range
            let b = if rng.chance(0.5) { random(rng, names, funcs, d) } else { random(rng, names, funcs, 0) };
            let e = match rng.below(5) {
                0 => random(rng, names, funcs, d),
                1 => X::Neg(Box::new(num(format!("{}", rng.range(1, 3))))),
                2 => bin('^', num(format!("{}", rng.range(1, 2))), num(format!("{}", rng.range(0, 3)))),
                _ => num(format!("{}", rng.range(0, 3))),
            };
            bin('^', b, e)
        }
        _ => {
            let (f, n) = rng.pick(funcs).clone();
            if f == "if" {
                let a = random(rng, names, funcs, d.min(1));
                let b = if rng.chance(0.3) { a.clone() } else { random(rng, names, funcs, d.min(1)) };
                // The code of the comparison is the nearest whole number
                let code: i64 = rng.range(1, 6);
                let code = match rng.below(4) {
                    0 => num(format!("{}", code as f64 + *rng.pick::<f64>(&[-0.3, 0.3, -1e-9, 1e-9, -1e-15, 0.25, -0.4]))),
                    1 => bin('+', num(format!("{}", code as f64 - 0.7)), num("0.7")),
                    _ => num(format!("{code}")),
                };
                return call("if", vec![a, code, b, random(rng, names, funcs, d), random(rng, names, funcs, d)]);
            }
            let args = (0..n).map(|_| random(rng, names, funcs, d)).collect();
            X::Call(f, args)
        }
    }
}

pub fn size(x: &X) -> usize {
    match x {
        X::Num(_) | X::Name(_) => 1,
        X::Neg(a) => 1 + size(a),
        X::Bin(_, a, b) => 1 + size(a) + size(b),
        X::Call(_, v) => 1 + v.iter().map(size).sum::<usize>(),
    }
}

/// The shape of an expression, with its leaves left out.
pub fn shape(x: &X) -> String {
    match x {
        X::Num(_) => "n".into(),
        X::Name(_) => "v".into(),
        X::Neg(a) => format!("-{}", shape(a)),
        X::Bin(op, a, b) => format!("({}{}{})", shape(a), op, shape(b)),
        X::Call(f, v) => format!("{f}[{}]", v.iter().map(shape).collect::<Vec<_>>().join(",")),
    }
}

// ----------------------------------------------------------------- recognition

#[derive(Clone, Debug, PartialEq)]
pub enum Reading {
    Valid(X),
    Invalid,
    /// Uses a form on which the language takes no stand.
    Unclear,
}

struct Parser<'a> {
    t: &'a [String],
    i: usize,
    env: &'a Env,
    unclear: bool,
}

/// Reads tokens by the grammar
///   expr := term {(+|-) term}    term := factor {(*|/) factor}
///   factor := - factor | atom [^ factor]
///   atom := number | value | function ( args ) | ( expr )
pub fn read(t: &[String], env: &Env) -> Reading {
    // A function name is always followed by its arguments; other uses are left open.
    for (i, w) in t.iter().enumerate() {
        if env.funcs.contains_key(w) && t.get(i + 1).map(|x| x.as_str()) != Some("(") {
            return Reading::Unclear;
        }
    }
    let mut p = Parser { t, i: 0, env, unclear: false };
    match p.expr() {
        Some(x) if p.i == t.len() => {
            if p.unclear { Reading::Unclear } else { Reading::Valid(x) }
        }
        _ => Reading::Invalid,
    }
}

impl Parser<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn expr(&mut self) -> Option<X> {
        let mut a = self.term()?;
        while self.peek() == "+" || self.peek() == "-" {
            let op = self.peek().chars().next()?;
            self.i += 1;
            a = bin(op, a, self.term()?);
        }
        Some(a)
    }
    fn term(&mut self) -> Option<X> {
        let mut a = self.factor()?;
        while self.peek() == "*" || self.peek() == "/" {
            let op = self.peek().chars().next()?;
            self.i += 1;
            a = bin(op, a, self.factor()?);
        }
        Some(a)
    }
    fn factor(&mut self) -> Option<X> {
        if self.peek() == "-" {
            self.i += 1;
            return Some(X::Neg(Box::new(self.factor()?)));
        }
        let a = self.atom()?;
        if self.peek() == "^" {
            self.i += 1;
            return Some(bin('^', a, self.factor()?));
        }
        Some(a)
    }
    fn atom(&mut self) -> Option<X> {
        let w = self.peek().to_string();
        if w.is_empty() {
            return None;
        }
        self.i += 1;
        if w == "(" {
            let x = self.expr()?;
            if self.peek() != ")" {
                return None;
            }
            self.i += 1;
            return Some(x);
        }
        if let Some((n, _)) = self.env.funcs.get(&w) {
            if self.peek() != "(" {
                self.unclear = true;
                return None;
            }
            self.i += 1;
            let mut args = vec![];
            if self.peek() == ")" {
                self.i += 1;
            } else {
                loop {
                    args.push(self.expr()?);
                    let s = self.peek().to_string();
                    self.i += 1;
                    match s.as_str() {
                        "," => continue,
                        ")" => break,
                        _ => return None,
                    }
                }
            }
            return if args.len() == *n { Some(X::Call(w, args)) } else { None };
        }
        if self.env.vals.contains_key(&w) {
            return Some(X::Name(w));
        }
        if w.starts_with(|c: char| c.is_ascii_digit() || c == '.') && w.parse::<f64>().is_ok() {
            return Some(X::Num(w));
        }
        None
    }
}
