//! X05: a conditional means the equation of the branch whose condition holds.
use crate::prog::{number, Prog, NAMES};
use nexsys::solve_with_preprocessors;
use vmon::expr::{self, bin, judge, name, num, Env, X};
use vmon::{cut, Ctx};

#[derive(Clone)]
enum Tree {
    Leaf(X, X),
    If { l: X, op: &'static str, r: X, yes: Box<Tree>, no: Box<Tree> },
}

const OPS: [&str; 6] = ["==", "<=", ">=", "<", ">", "!="];

fn holds(op: &str, a: f64, b: f64) -> bool {
    match op {
        "==" => a == b,
        "<=" => a <= b,
        ">=" => a >= b,
        "<" => a < b,
        ">" => a > b,
        _ => a != b,
    }
}

fn value(x: &X, env: &Env, c: &mut Ctx, bound: f64) -> Option<f64> {
    match judge(x, env, &mut c.rng)? {
        (Ok(v), t) if v.abs() < bound && t < 1e-7 => Some(v),
        _ => None,
    }
}

/// Defined, and not steep, wherever the solver may step.
fn tame(x: &X) -> bool {
    match x {
        X::Num(_) | X::Name(_) => true,
        X::Neg(a) => tame(a),
        X::Bin('/', a, b) => tame(a) && matches!(**b, X::Num(_)),
        X::Bin('^', a, b) => tame(a) && matches!(&**b, X::Num(n) if ["1", "2"].contains(&n.as_str())),
        X::Bin(_, a, b) => tame(a) && tame(b),
        X::Call(_, v) => v.iter().all(tame),
    }
}

fn expression(c: &mut Ctx, names: &[String], env: &Env) -> Option<(X, f64)> {
    let funcs: Vec<(String, usize)> = ["sin", "cos", "arctan", "tanh", "abs"].iter().map(|f| (f.to_string(), 1)).collect();
    for _ in 0..40 {
        let d = c.rng.us(0, 2);
        let x = expr::random(&mut c.rng, names, &funcs, d);
        if tame(&x) {
            if let Some(v) = value(&x, env, c, 1e4) {
                return Some((x, v));
            }
        }
    }
    None
}

struct Gen<'a> {
    names: &'a [String],
    /// Names whose values are exact.
    exact: &'a [String],
    env: &'a Env,
    nested: usize,
}

impl Gen<'_> {
    fn condition(&self, c: &mut Ctx) -> Option<(X, &'static str, X)> {
        let op = *c.rng.pick(&OPS);
        if c.rng.chance(0.4) {
            // Exact operands, often equal
            let n = c.rng.range(-9, 9) as f64 / *c.rng.pick(&[1.0, 2.0, 8.0]);
            let (l, v) = if !self.exact.is_empty() && c.rng.chance(0.7) {
                let k = c.rng.pick(self.exact).clone();
                let v = self.env.vals[&k];
                (name(&k), v)
            } else {
                (number(n), n)
            };
            let (l, v) = if c.rng.chance(0.1) { (number(0.0), 0.0) } else { (l, v) };
            let near = if v == 0.0 { *c.rng.pick(&[1e-13, -1e-10, 1e-7]) } else { v * (1.0 + *c.rng.pick(&[1e-15, -1e-14, 1e-11, -1e-8])) };
            let w = *c.rng.pick(&[v, v, v + 1.0, v - 0.125, near]);
            let r = number(w);
            c.count(if v == w { "equal operands" } else if (v - w).abs() < 1e-6 { "nearly equal operands" } else { "exact operands" });
            return Some(if c.rng.chance(0.5) { (l, op, r) } else { (r, op, l) });
        }
        let (l, a) = expression(c, self.names, self.env)?;
        let (r, b) = expression(c, self.names, self.env)?;
        if op.contains('=') && op != "<=" && op != ">=" && c.rng.chance(0.5) {
            return None;
        }
        if (a - b).abs() < 0.05 + 1e-3 * a.abs() {
            return None;
        }
        // Operands far from steep places keep their order at the solution
        let mut near = self.env.clone();
        for n in self.names {
            if let Some(v) = near.vals.get_mut(n) {
                *v += c.rng.f(-1e-4, 1e-4);
            }
        }
        let (a1, b1) = (value(&l, &near, c, 1e5)?, value(&r, &near, c, 1e5)?);
        ((a > b) == (a1 > b1) && (a1 - a).abs() < 0.01 && (b1 - b).abs() < 0.01).then_some((l, op, r))
    }

    fn tree(&mut self, c: &mut Ctx, depth: usize, target: &dyn Fn(&mut Ctx, &Self) -> Option<(X, X)>) -> Option<Tree> {
        if depth == 0 {
            let (l, r) = target(c, self)?;
            return Some(if c.rng.chance(0.35) { Tree::Leaf(r, l) } else { Tree::Leaf(l, r) });
        }
        let (l, op, r) = (0..20).find_map(|_| self.condition(c))?;
        let mut sub = |c: &mut Ctx| {
            let d = if depth > 1 && c.rng.chance(if depth > 3 { 0.6 } else { 0.5 }) { depth - 1 } else { 0 };
            self.nested += (d > 0) as usize;
            self.tree(c, d, target)
        };
        let (yes, no) = (Box::new(sub(c)?), Box::new(sub(c)?));
        Some(Tree::If { l, op, r, yes, no })
    }
}

/// The equation that counts.
fn chosen<'a>(t: &'a Tree, env: &Env, path: &mut String) -> Option<(&'a X, &'a X)> {
    match t {
        Tree::Leaf(l, r) => Some((l, r)),
        Tree::If { l, op, r, yes, no } => {
            let (a, b) = (expr::eval(l, env, &mut None).ok()?, expr::eval(r, env, &mut None).ok()?);
            let h = holds(op, a, b);
            *path += op;
            path.push(if h { 'y' } else { 'n' });
            chosen(if h { yes } else { no }, env, path)
        }
    }
}

fn print(t: &Tree, c: &mut Ctx, indent: usize, step: &str, out: &mut Vec<String>) {
    let pad = step.repeat(indent);
    match t {
        Tree::Leaf(l, r) => {
            let (l, r) = (expr::print(l, &mut c.rng, &[" "]), expr::print(r, &mut c.rng, &[" "]));
            let eq = *c.rng.pick(&[" = ", "=", " =", "= "]);
            out.push(format!("{pad}{l}{eq}{r}"));
        }
        Tree::If { l, op, r, yes, no } => {
            let (l, r) = (expr::print(l, &mut c.rng, &[" "]), expr::print(r, &mut c.rng, &[" "]));
            let (a, b) = *c.rng.pick(&[(" ", " "), (" ", " "), ("", ""), ("", " "), ("  ", " ")]);
            out.push(format!("{pad}if {}{a}{op}{b}{}:", l.trim(), r.trim()));
            print(yes, c, indent + 1, step, out);
            out.push(format!("{pad}else:"));
            print(no, c, indent + 1, step, out);
            out.push(format!("{pad}end"));
        }
    }
}

/// A condition keeps the solver away from an equation that has no meaning where it does not count.
fn guard(c: &mut Ctx) {
    let division = c.case == 0; // a known finding
    let (mut k, given) = (c.rng.range(2, 9) as f64, c.rng.chance(0.5));
    let (mut want, mut n) = (c.rng.range(-20, 20) as f64 / 4.0, *c.rng.pick(&["d", "level", "x_1", "Iff"]));
    if division {
        (k, want, n) = (3.0, 1.0, "d");
    }
    let undefined = match c.rng.below(6) {
        _ if division => format!("1/({n} + {k})"),
        0 => format!("ln({n})"),
        1 => format!("arcsin({n})*2"),
        2 => format!("arccos({n} - 1)"),
        3 => format!("({n})^0.5"),
        4 => format!("3 + log10({n} + 1)"),
        _ => format!("log({n}, 2)"),
    };
    let (bad, good) = (format!("y = {undefined}"), format!("y = {want}"));
    let (op, first) = if division { ("!=", false) } else { *c.rng.pick(&[("<", true), ("<=", true), (">", false), (">=", false), ("!=", true), ("==", false)]) };
    let head = if division { format!("if {n} != -{k}:") } else { format!("if {n} {op} {}:", c.rng.range(0, 5)) };
    let (a, b) = if first { (&good, &bad) } else { (&bad, &good) };
    let mut text = format!("{head}\n    {a}\nelse:\n    {b}\nend");
    if c.rng.chance(0.3) && !division {
        // Within a branch that counts
        text = format!("if 2 > 1:\n{text}\nelse:\n    y = 17\nend");
    }
    let known = if given || division { format!("const {n} = -{k}") } else { format!("guess -{k} for {n}\n2*{n} = -{}", 2.0 * k) };
    text = if division || c.rng.chance(0.5) { format!("{known}\n{text}") } else { format!("{text}\n{known}") };
    let t = text.clone();
    let got = cut(move || solve_with_preprocessors(&t, 1e-7, 100).map(|r| r.1).map_err(|e| e.to_string()));
    c.count("guards");
    c.seen(&(&text, 0));
    let ok = matches!(&got, Ok(Ok(m)) if m.get("y").is_some_and(|y| (y - want).abs() <= 1e-7));
    let sig = if division { "guarded-division-by-zero" } else { "guarded" };
    c.check(ok, sig, || format!("{text}\ny is {want}, but {got:?}"));
}

pub fn case(c: &mut Ctx) {
    if c.case == 0 || c.rng.chance(0.1) {
        return guard(c);
    }
    let Some(p) = Prog::random(c, true) else { return c.count("skipped") };
    let mut env = p.env();
    let mut names: Vec<String> = p.at.iter().chain(&p.consts).map(|a| a.0.clone()).collect();
    let exact: Vec<String> = p.consts.iter().map(|a| a.0.clone()).collect();
    let mut free: Vec<&str> = NAMES.iter().copied().filter(|n| !names.iter().any(|m| m == n)).chain(["t", "u", "v", "w", "s"]).collect();
    c.rng.shuffle(&mut free);
    let mut lines: Vec<Vec<String>> = p.consts.iter().map(|(k, v)| vec![format!("const {k} = {v}")]).collect();
    lines.extend(p.equations(c).into_iter().map(|l| vec![l]));
    let mut trees: Vec<(Tree, Vec<String>)> = vec![];
    let mut want: Vec<(String, f64)> = vec![];
    let step = *c.rng.pick(&["    ", "", "  ", "\t"]);
    for _ in 0..c.rng.us(1, 3) {
        let pair = c.rng.chance(0.25);
        let t = free.pop().unwrap().to_string();
        let s = free.pop().unwrap().to_string();
        let depth = if c.rng.chance(0.1) { c.rng.us(4, 12) } else { *c.rng.pick(&[1, 1, 2, 3]) };
        // In half of the programs, later conditionals use what earlier ones decided
        let mut g = Gen { names: &names, exact: &exact, env: &env, nested: 0 };
        let (t1, s1) = (t.clone(), s.clone());
        let target = move |c: &mut Ctx, g: &Gen| -> Option<(X, X)> {
            let (e, v) = expression(c, g.names, g.env)?;
            if pair {
                let k = *c.rng.pick(&[1.0, 2.0, -3.0]);
                return Some((bin('+', name(&t1), bin('*', number(k), name(&s1))), e));
            }
            Some(match c.rng.below(6) {
                0..=2 => (name(&t1), e),
                3 => (bin('+', bin('*', num("2"), name(&t1)), num("1")), e),
                4 => (bin('-', name(&t1), e), num("0")),
                _ => {
                    let _ = v;
                    (bin('-', e, bin('*', num("4"), name(&t1))), number(c.rng.range(-5, 5) as f64))
                }
            })
        };
        let Some(tree) = g.tree(c, depth, &target) else { return c.count("skipped") };
        let nested = g.nested;
        c.add("nested", nested as u64);
        let mut path = String::new();
        let Some((l, r)) = chosen(&tree, &env, &mut path) else { return c.count("skipped") };
        // The value of the unknown, from the branch: the equation is linear in it
        let at = |t_: f64, s_: f64| {
            let e = env.clone().with(&t, t_).with(&s, s_);
            Some(expr::eval(l, &e, &mut None).ok()? - expr::eval(r, &e, &mut None).ok()?)
        };
        let (Some(f0), Some(f1), Some(g1)) = (at(0.0, 0.0), at(1.0, 0.0), at(0.0, 1.0)) else { return c.count("skipped") };
        if pair {
            // with t - 7 s = k
            let (a, b) = (f1 - f0, g1 - f0);
            let k = c.rng.range(-9, 9) as f64;
            // a t + b s = -f0 ; t - 7 s = k
            let det = -7.0 * a - b;
            if det.abs() < 0.5 {
                return c.count("skipped");
            }
            let sv = (a * k + f0) / det;
            let tv = k + 7.0 * sv;
            lines.push(vec![format!("{t} - 7*{s} = {k}")]);
            want.push((t.clone(), tv));
            want.push((s.clone(), sv));
            c.count("part of a system");
        } else {
            want.push((t.clone(), -f0 / (f1 - f0)));
        }
        for o in path.split_inclusive(['y', 'n']) {
            c.count(o);
        }
        let mut out = vec![];
        print(&tree, c, 0, step, &mut out);
        lines.push(out);
        c.seen(&(path, nested, pair));
        trees.push((tree, vec![t, s]));
        if c.rng.chance(0.5) {
            for w in want.iter() {
                if w.1.abs() < 100.0 && !names.contains(&w.0) {
                    names.push(w.0.clone());
                }
                env.vals.insert(w.0.clone(), w.1);
            }
        }
    }
    if want.iter().any(|w| w.1.abs() > 1e4) {
        return c.count("skipped");
    }
    for (n, v) in p.at.iter().chain(&want) {
        if !c.rng.chance(0.1) {
            lines.push(vec![format!("guess {:.4} for {n}", v + c.rng.f(-0.2, 0.2))]);
        }
    }
    c.rng.shuffle(&mut lines);
    let text = lines.iter().map(|l| l.join("\n")).collect::<Vec<_>>().join("\n") + *c.rng.pick(&["", "\n"]);
    if c.rng.chance(0.1) {
        // Not one of the comparisons
        let heads: Vec<usize> = text.match_indices("if ").map(|m| m.0).filter(|i| *i == 0 || text[..*i].ends_with(['\n', '\t', ' '])).collect();
        let at = *c.rng.pick(&heads);
        let end = at + text[at..].find(':').unwrap_or(0);
        let head = &text[at..end];
        let Some((op, i)) = ["==", "<=", ">=", "!=", "<", ">"].iter().find_map(|o| head.find(o).map(|i| (o, i))) else { return };
        let bad = *c.rng.pick(&["=", "=<", "=>", "<>", "<<", ">>", "=!", "><"]);
        let text = format!("{}{}{bad}{}", &text[..at], &head[..i], &text[at + i + op.len()..]);
        let t = text.clone();
        let got = cut(move || solve_with_preprocessors(&t, 1e-7, 50).map(|r| r.1).map_err(|e| e.to_string()));
        c.count("wrong comparisons");
        c.seen(&(bad, trees.len()));
        c.check(matches!(got, Ok(Err(_))), "wrong-comparison", || format!("{text}\n{got:?}"));
        return;
    }
    if c.rng.chance(0.1) {
        // A branch that is no equation of two sides
        let mut rows: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
        let of_branches: Vec<usize> = (1..rows.len())
            .filter(|&i| {
                let before = rows[i - 1].trim();
                (before.starts_with("if ") || before.starts_with("else")) && !rows[i].trim().starts_with("if ") && rows[i].contains('=')
            })
            .collect();
        if of_branches.is_empty() {
            return;
        }
        let i = *c.rng.pick(&of_branches);
        let (l, r) = rows[i].split_once('=').unwrap();
        let what = c.rng.below(5);
        rows[i] = match what {
            0 => format!("{l}={r} = {}", c.rng.range(0, 9)),
            1 => format!("{l}={}={r}", *c.rng.pick(&["", " ", " 3 ", " 0 "])),
            2 => format!("{l}={r} ="),
            3 => format!("{l}="),
            _ => format!("{}={r}", &l[..l.len() - l.trim_start().len()]),
        };
        let text = rows.join("\n");
        let t = text.clone();
        let got = cut(move || solve_with_preprocessors(&t, 1e-7, 50).map(|r| r.1).map_err(|e| e.to_string()));
        c.count("branches that are no equations");
        c.seen(&(what, trees.len(), i));
        c.check(matches!(got, Ok(Err(_))), "malformed-branch", || format!("{text}\n{got:?}"));
        return;
    }
    let t = text.clone();
    let margin = 1e-7;
    let res = match cut(move || solve_with_preprocessors(&t, margin, 100)) {
        Err(m) => return c.fail("panic", format!("{text}: {m}")),
        Ok(r) => r,
    };
    c.count("programs");
    c.sample("program", || text.clone());
    let soln = match res {
        Err(e) => return c.fail("not-solved", format!("{text}\n{e}, but {:?}, {want:?} solves it", p.at)),
        Ok(r) => r.1,
    };
    let mut known = p.env();
    for (n, _) in p.at.iter().chain(&want) {
        let Some(v) = soln.get(n) else { return c.fail("missing", format!("{text}\nno value for {n} in {soln:?}")) };
        known.vals.insert(n.clone(), *v);
    }
    let mut all: Vec<&String> = soln.keys().filter(|k| !["pi", "e"].contains(&k.as_str())).collect();
    all.retain(|k| !p.at.iter().chain(&want).chain(&p.consts).any(|w| w.0 == **k));
    c.check(all.is_empty(), "extra", || format!("{text}\nalso solved for {all:?}"));
    // The branch that counts at the exact values is met at the values found
    let mut exact_env = p.env();
    for (n, v) in &want {
        exact_env.vals.insert(n.clone(), *v);
    }
    for (tree, _) in &trees {
        let Some((l, r)) = chosen(tree, &exact_env, &mut String::new()) else { continue };
        if let (Some((Ok(a), t)), Some((Ok(b), u))) = (judge(l, &known, &mut c.rng), judge(r, &known, &mut c.rng)) {
            c.check((a - b).abs() <= margin + 10.0 * (t + u), "branch", || {
                let mut out = vec![];
                print(tree, &mut Ctx::detached(vmon::Rng::new(1)), 0, "  ", &mut out);
                format!("{text}\nof\n{}\nthe branch {l:?} = {r:?} counts, but at {soln:?} its sides are {a} and {b}", out.join("\n"))
            });
        }
    }
}
