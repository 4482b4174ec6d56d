//! X07: whatever the text, the answer is a solution or an error.
use crate::prog::{Prog, NAMES};
use geqslib::shunting::new_context;
use nexsys::parsing::{comments, compile, conditionals, const_values, consts, conversions, domains, guess_values};
use nexsys::units::convert;
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::HashMap;
use vmon::{cut, cut_small, Ctx};

const PIECES: [&str; 72] = ["if ", "else:", "end", "if x > 1:", "if x == 1:\n", "\nelse:\n", "\nend", "guess ", "guess 5 for x", "guess - 5 for", " for ", "keep ",
    "keep x on [0, 1]", "keep x on [", " on ", "const ", "const a = ", "const = 3", "#R", "#", "#nope", "#pi ", "[m->ft]", "[m->", "->", "[in.H2O->Pa]",
    "[->]", "[m->s]", "//", "// ", "/", "*", "+", "-", "- -", "^", "(", ")", "()", ",", "=", "==", "= 0", "<", ">", "<=", ">=", "!=", "!", ":", ".", "..",
    "1e", "1e5", "1e400", "1.2.3", "0", "1/0", "sin", "sin(", "if(1,2,3,4,5)", "log(2,", "\n", "\n\n", "\r\n", "\t", "  ", "é", "\u{0}", "λ", "nan", "inf"];

fn block(c: &mut Ctx, depth: usize, vars: &[String], pad: &str) -> String {
    let leaf = |c: &mut Ctx| {
        let v = c.rng.pick(vars).clone();
        match c.rng.below(3) {
            0 => format!("{v} = {}", c.rng.range(-9, 9)),
            1 => format!("2*t - {v} = 0"),
            _ => format!("t = {v}"),
        }
    };
    let part = |c: &mut Ctx| if depth > 0 && c.rng.chance(0.3) { block(c, depth - 1, vars, "    ") } else { format!("    {}", leaf(c)) };
    let op = *c.rng.pick(&["==", "<=", ">=", "<", ">", "!="]);
    let (a, b) = (part(c), part(c));
    format!("{pad}if {} {op} {}:\n{a}\n{pad}else:\n{b}\n{pad}end", c.rng.pick(vars), c.rng.range(-5, 5))
}

fn mutate(c: &mut Ctx, text: &str, other: &str) -> String {
    let mut lines: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
    match c.rng.below(9) {
        0 => {
            let i = c.rng.below(lines.len());
            lines.remove(i);
        }
        1 => {
            let i = c.rng.below(lines.len());
            let l = lines[i].clone();
            let j = c.rng.below(lines.len() + 1);
            lines.insert(j, l);
        }
        2 => c.rng.shuffle(&mut lines),
        3 => {
            let from: Vec<&str> = other.split('\n').collect();
            let l = c.rng.pick(&from).to_string();
            let j = c.rng.below(lines.len() + 1);
            lines.insert(j, l);
        }
        _ => {
            let mut chars: Vec<char> = text.chars().collect();
            let n = chars.len();
            let i = c.rng.below(n + 1);
            match c.rng.below(7) {
                0 if n > 0 => {
                    let to = (i + c.rng.us(1, 8)).min(n);
                    chars.drain(i.min(to)..to);
                }
                1 if n > 1 => {
                    let (a, b) = (c.rng.below(n), c.rng.below(n));
                    chars.swap(a, b);
                }
                2 => chars.truncate(i),
                3 => {
                    let k = char::from_u32(c.rng.below(0x2fff) as u32).unwrap_or('x');
                    chars.insert(i, k);
                }
                _ => {
                    let p = c.rng.pick(&PIECES).chars();
                    chars.splice(i..i, p);
                }
            }
            return chars.into_iter().collect();
        }
    }
    lines.join("\n")
}

fn base(c: &mut Ctx) -> Option<String> {
    let linear = c.rng.chance(0.8);
    let p = Prog::random(c, linear)?;
    let mut lines: Vec<String> = p.consts.iter().map(|(k, v)| format!("const {k} = {v}")).collect();
    for (n, v) in &p.at {
        if c.rng.chance(0.4) {
            lines.push(format!("guess {v:.2} for {n}"));
        }
        if c.rng.chance(0.3) {
            lines.push(format!("keep {n} on [{:.2}, {:.2}]", v - 9.0, v + 9.0));
        }
    }
    lines.extend(p.equations(c));
    let vars: Vec<String> = p.at.iter().map(|a| a.0.clone()).collect();
    if c.rng.chance(0.5) {
        lines.push(block(c, 2, &vars, ""));
    }
    if c.rng.chance(0.3) {
        lines.push(format!("F_1 = {} * [lbf->N] + #g", c.rng.pick(&vars)));
    }
    if c.rng.chance(0.3) {
        lines.push("// nothing".into());
    }
    c.rng.shuffle(&mut lines);
    Some(lines.join("\n"))
}

fn soup(c: &mut Ctx) -> String {
    (0..c.rng.us(0, 14)).map(|_| match c.rng.below(4) {
        0 => c.rng.pick(&NAMES).to_string(),
        1 => c.rng.range(-9, 99).to_string(),
        _ => c.rng.pick(&PIECES).to_string(),
    }).collect()
}

/// Programs without a solution, and searches that may take long.
fn patience(c: &mut Ctx) {
    let limit = *c.rng.pick(&[10_000, 20_000]);
    let k = c.rng.us(1, 9);
    let (text, limit) = match c.rng.below(3) {
        0 => (format!("x ^ 2 + {k} = 0"), 4 * limit),
        1 => (format!("keep x on [-4, 5]\nx ^ 2 + {k} = 0"), 4 * limit),
        _ => (format!("x ^ 2 + y ^ 2 + {k} = 0\nx - 2 * y = {k}"), limit),
    };
    c.seen(&text);
    c.count("long searches");
    let t = text.clone();
    match cut_small(move || solve_with_preprocessors(&t, 1e-6, limit).map(|r| r.1)) {
        Err(m) => c.fail("panic", format!("{text:?} in {limit} steps: {m}")),
        Ok(r) => { c.check(r.is_err(), "answer", || format!("{text:?} in {limit} steps: {r:?}")); }
    }
}

/// Programs that are solved in a few steps may be given as many as can be counted.
fn generous(c: &mut Ctx) {
    let limit = *c.rng.pick(&[usize::MAX, usize::MAX / 2, usize::MAX >> 8, u32::MAX as usize, u32::MAX as usize + 1, 1 << 40, 1 << 33]);
    let (a, b) = (c.rng.range(-9, 9), c.rng.us(1, 9));
    let mut lines = vec![format!("{b} * x = {a}"), format!("y - x = {b}"), format!("z + w = {a}"), format!("z - w = {b}")];
    if c.rng.chance(0.3) {
        lines.push((*c.rng.pick(&["keep x on [-100, 100]", "guess 3 for z", "// no more", "q + = 3", "q = [m->nothing]", "const k = 4"])).into());
    }
    let n = c.rng.us(1, lines.len());
    c.rng.shuffle(&mut lines);
    let text = lines[..n].join("\n");
    let margin = *c.rng.pick(&[1e-3, 1e-6, 1.0, 1e300]);
    c.seen(&(&text, limit));
    c.count("generous limits");
    let t = text.clone();
    let r = cut(move || solve_with_preprocessors(&t, margin, limit).is_ok());
    c.check(r.is_ok(), "panic", || format!("{text:?} in {limit} steps: {r:?}"));
}

pub fn case(c: &mut Ctx) {
    if c.rng.chance(0.02) {
        return generous(c);
    }
    if c.rng.chance(0.0008) {
        return patience(c);
    }
    let (Some(mut text), Some(other)) = (base(c), base(c)) else { return c.count("skipped") };
    if c.rng.chance(0.1) {
        text = soup(c);
        c.count("soup");
    } else {
        for _ in 0..c.rng.us(0, 6) {
            text = mutate(c, &text, &other);
        }
    }
    if c.rng.chance(0.1) {
        text = text.replace('\n', "\r\n");
    }
    c.seen(&text);
    let margin = *c.rng.pick(&[1e-3, 1e-6, 1e-3, 0.0, -1.0, f64::NAN, 1e300, f64::INFINITY]);
    let limit = *c.rng.pick(&[0, 1, 5, 20]);
    let t = text.clone();
    match cut(move || solve_with_preprocessors(&t, margin, limit).map(|r| r.1)) {
        Err(m) => c.fail("panic", format!("{text:?} to within {margin} in {limit} steps: {m}")),
        Ok(r) => {
            c.eval();
            c.count(if r.is_ok() { "answers" } else { "errors" });
        }
    }
    if c.rng.chance(0.4) {
        // Every stage by itself
        let t = &text;
        let r = cut(move || {
            let _ = (comments(t), consts(t), conversions(t), const_values(t), domains(t), guess_values(t), conditionals(t));
            let mut declared = HashMap::new();
            let mut ctx = new_context();
            let _ = compile(t, &mut ctx, &mut declared);
            let _ = basic_solve(t, &mut ctx, &mut declared, 1e-3, 10);
        });
        c.count("stages");
        c.check(r.is_ok(), "stage-panic", || format!("{text:?}: {r:?}"));
        let (a, b) = (soup(c), c.rng.pick(&["m", "ft", "", "kg/m"]).to_string());
        let r = cut(|| convert(&a, &b).is_ok());
        c.check(r.is_ok(), "convert-panic", || format!("{a:?} -> {b:?}: {r:?}"));
    }
}
