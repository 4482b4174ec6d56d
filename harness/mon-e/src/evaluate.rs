//! E01: the value of an expression is the value its text denotes.
use crate::names::world;
use geqslib::shunting::{eval_str, eval_str_with_context};
use vmon::expr::{self, agrees, bin, call, judge, name, num, Env, X};
use vmon::{cut, Ctx};

pub fn case(c: &mut Ctx) {
    let kind = c.rng.below(10);
    let mut w = world(&mut c.rng, 6, false);
    let bare = c.rng.chance(0.25);
    if bare {
        // What eval_str knows
        w.env = Env::standard();
        w.names = vec!["pi".into(), "e".into()];
        w.funcs = w.env.funcs.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        w.funcs.sort();
    }
    let x = match kind {
        0 => chain(c, &w.names),
        1 => deep(c, &w.names),
        2 | 3 => small(c, &w.names),
        _ => {
            let d = c.rng.us(1, 5);
            expr::random(&mut c.rng, &w.names, &w.funcs, d)
        }
    };
    let text = expr::print(&x, &mut c.rng, &expr::BLANKS);
    let want = judge(&x, &w.env, &mut c.rng);
    let got = cut(|| if bare { eval_str(&text) } else { eval_str_with_context(&text, &w.ctx) });
    let short = || if text.len() > 400 { format!("{}... ({} characters)", text.chars().take(200).collect::<String>(), text.len()) } else { text.clone() };

    let got = match got {
        Err(p) => return c.fail("panic", format!("{}: {p}", short())),
        Ok(r) => r,
    };
    let Some((want, tol)) = want else {
        return c.count("skipped");
    };
    let plain = got.as_ref().map(|v| *v).map_err(|_| ());
    c.check(agrees(want, tol, plain), "value", || format!("{}: expected {want:?}, got {got:?}", short()));
    match want {
        Err(_) => c.count("division by zero"),
        Ok(v) if v.is_nan() => c.count("not a number"),
        Ok(_) => c.count("numbers"),
    }
    if kind <= 1 {
        c.count("long or deep");
    }
    // The same expression, written differently
    let again = expr::print(&x, &mut c.rng, &expr::BLANKS);
    let second = cut(|| if bare { eval_str(&again) } else { eval_str_with_context(&again, &w.ctx) });
    let same = match (&got, &second) {
        (Ok(a), Ok(Ok(b))) => a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol,
        (Err(_), Ok(Err(_))) => true,
        _ => false,
    };
    c.check(same, "spelling", || format!("{} gives {got:?}, but the same with other spaces and parentheses gives {second:?}", short()));
    if kind > 1 {
        c.seen(&expr::shape(&x));
        c.sample("expression", || format!("{text} -> {want:?}"));
    }
}

/// Two or three operators: every combination of them comes up often.
fn small(c: &mut Ctx, names: &[String]) -> X {
    let r = &mut c.rng;
    let leaf = |r: &mut vmon::Rng| -> X {
        let x = match r.below(3) {
            0 => name(r.pick(names)),
            1 => num(format!("{}", r.range(1, 4))),
            _ => num(expr::literal(r)),
        };
        match r.below(8) {
            0 => X::Neg(Box::new(x)),
            1 => call(r.pick(&expr::UNARY), vec![x]),
            2 => {
                let b = num(format!("{}", r.range(2, 10)));
                call("log", vec![b, x])
            }
            _ => x,
        }
    };
    let ops = ['+', '-', '*', '/', '^'];
    // A flat sequence of tokens, read back by the reference: every association is met
    let n = r.us(2, 4);
    let mut parts: Vec<X> = (0..=n).map(|_| leaf(r)).collect();
    while parts.len() > 1 {
        let i = r.below(parts.len() - 1);
        let b = parts.remove(i + 1);
        let a = std::mem::replace(&mut parts[i], num("0"));
        let mut y = bin(*r.pick(&ops), a, b);
        if r.chance(0.15) {
            y = X::Neg(Box::new(y));
        }
        parts[i] = y;
    }
    parts.pop().unwrap()
}

/// A long sequence of terms.
fn chain(c: &mut Ctx, names: &[String]) -> X {
    let r = &mut c.rng;
    let named = r.chance(0.4);
    let n = *r.pick(&[10, 50, 300, 1500]);
    let ops: &[char] = r.pick(&[&['+', '-'][..], &['*', '/'][..], &['+', '-', '*', '/'][..]]);
    let mut x = num("1");
    for _ in 0..n {
        let v = if named && r.chance(0.05) { name(r.pick(names)) } else { num(format!("{:.3}", r.f(0.5, 1.5))) };
        x = bin(*r.pick(ops), x, v);
    }
    x
}

/// Nested parentheses, minus signs, calls or powers.
fn deep(c: &mut Ctx, names: &[String]) -> X {
    let r = &mut c.rng;
    let n = *r.pick(&[5, 40, 200, 800]);
    let mut x = if r.chance(0.5) { name(r.pick(names)) } else { num(format!("{:.3}", r.f(0.2, 0.9))) };
    let kind = r.below(7);
    for _ in 0..n {
        x = match kind {
            0 => X::Neg(Box::new(x)),
            1 => call(r.pick(&["sin", "cos", "abs", "arctan"]), vec![x]),
            2 => bin('^', num("1.01"), x),
            3 => bin('-', num("1"), x),
            4 => bin('+', num("1"), x),
            5 => bin(*r.pick(&['+', '-']), if r.chance(0.1) { name(r.pick(names)) } else { num("0.5") }, x),
            _ => match r.below(3) {
                0 => X::Neg(Box::new(x)),
                1 => bin('-', num("0.5"), x),
                _ => call("cos", vec![x]),
            },
        };
    }
    x
}

