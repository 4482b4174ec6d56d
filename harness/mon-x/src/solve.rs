//! X01, X02: what is solved is solved; what means nothing changes nothing.
use crate::prog::Prog;
use geqslib::shunting::{new_context, ContextLike, Token};
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::HashMap;
use vmon::{cut, Ctx};

type Soln = HashMap<String, f64>;

pub fn solutions(c: &mut Ctx) {
    let linear = c.rng.chance(0.6);
    let Some(mut p) = Prog::random(c, linear) else { return c.count("skipped") };
    let margin = *c.rng.pick(&[1e-3, 1e-4, 1e-6]);
    let mut eqs = p.equations(c);
    for _ in 0..c.rng.below(6) {
        if p.twin(&mut eqs, c) {
            c.count("twins");
        }
    }
    // Something that no equation determines
    let mut loose: Vec<String> = vec![];
    if c.rng.chance(0.15) {
        for _ in 0..c.rng.us(1, 2) {
            let (a, b) = (format!("loose{}", loose.len()), format!("loose{}", loose.len() + 1));
            let with = match c.rng.pick(&p.at).clone() {
                (n, _) if !p.wild && p.eqs.len() < 5 => n,
                _ => "pi".to_string(),
            };
            eqs.push(match c.rng.below(3) {
                0 => format!("{a} + {b} = 3"),
                1 => format!("2 * {a} = {with} - {b}"),
                _ => format!("{with} * {a} = sin({b}) + {with}"),
            });
            loose.extend([a, b]);
        }
        c.count("something open");
    }
    let (p, loose) = (p, loose);
    let guesses = p.guesses(c);
    let mut first: Option<Soln> = None;
    // How far values may be off when the equations are met to within the margin
    let reach = if linear && p.wild { p.sensitivity().map_or(f64::INFINITY, |s| (1.5 * s).max(50.0)) } else { 50.0 };
    if p.wild {
        c.count("without a heavy diagonal");
    }
    for round in 0..2 {
        c.rng.shuffle(&mut eqs);
        let direct = c.rng.chance(0.3);
        let (text, res) = if direct {
            // The solver without the preprocessors
            let mut ctx = new_context();
            for (k, v) in &p.consts {
                ctx.add_const_to_ctx(k, *v);
            }
            let mut declared: HashMap<String, [f64; 3]> = HashMap::new();
            if !linear {
                for (n, v) in &p.at {
                    declared.insert(n.clone(), [v + 0.1, f64::NEG_INFINITY, f64::INFINITY]);
                }
            }
            let text = eqs.join("\n");
            let t = text.clone();
            let r = cut(move || basic_solve(&t, &mut ctx, &mut declared, margin, 100).map(|r| (r, ctx)));
            // The caller's context knows what was found
            if let Ok(Ok(((_, soln), ctx))) = &r {
                let ok = p.at.iter().all(|(n, _)| match ctx.get(n) {
                    Some(Token::Num(v)) => soln.get(n) == Some(v),
                    Some(Token::Var(v)) => soln.get(n) == Some(&f64::from(*v.borrow())),
                    _ => !soln.contains_key(n),
                });
                c.check(ok, "context", || format!("{text}: the context holds other values than the solution"));
            }
            (text, r.map(|r| r.map(|r| r.0)))
        } else {
            let mut lines: Vec<String> = p.consts.iter().map(|(k, v)| format!("const {k} = {v}")).collect();
            if !linear {
                lines.extend(guesses.iter().cloned());
            }
            lines.extend(eqs.iter().cloned());
            let text = lines.join("\n");
            let t = text.clone();
            (text, cut(move || solve_with_preprocessors(&t, margin, 100)))
        };
        let res = match res {
            Err(m) => return c.fail("panic", format!("{text}: {m}")),
            Ok(r) => r,
        };
        let (log, soln) = match res {
            Err(e) => {
                c.count("no answer");
                c.check(!linear, "not-solved", || format!("{text}\nto within {margin}: {e}, but {:?} solves it", p.at));
                return;
            }
            Ok(r) => r,
        };
        c.count(if linear { "linear solved" } else { "nonlinear solved" });
        let missing: Vec<&str> = p.at.iter().map(|a| a.0.as_str()).filter(|n| !soln.contains_key(*n)).collect();
        if !c.check(missing.is_empty(), "missing", || format!("{text}\nno value for {missing:?} in {soln:?}")) {
            return;
        }
        let found: Vec<&String> = loose.iter().filter(|n| soln.contains_key(*n)).collect();
        c.check(found.is_empty(), "open", || format!("{text}\n{found:?} can be anything, but {soln:?}"));
        let (worst, tol, which) = p.residual(&soln, c);
        c.check(worst <= margin * (1.0 + 1e-6) + tol, "residual", || {
            format!("{text}\nto within {margin}: equation {:?} = {:?} is off by {worst} at {soln:?}", p.eqs[which].l, p.eqs[which].r)
        });
        for (k, v) in &p.consts {
            c.check(soln.get(k) == Some(v), "const", || format!("{text}\n{k} is {:?}, not {v}", soln.get(k)));
        }
        c.check(!log.is_empty() && log.len() <= p.eqs.len(), "log", || format!("{text}\n{} steps for {} equations", log.len(), p.eqs.len()));
        if linear {
            for (n, v) in &p.at {
                c.check((soln[n] - v).abs() <= reach * margin + 1e-7, "value", || format!("{text}\n{n} is {}, not {v}", soln[n]));
            }
        }
        if let Some(f) = &first {
            if linear {
                let same = p.at.iter().all(|(n, _)| (f[n] - soln[n]).abs() <= 2.0 * reach * margin + 1e-7);
                c.check(same, "order", || format!("{text}\nin another order: {f:?}, in this one: {soln:?}"));
            }
        }
        if round == 0 {
            c.sample("program", || format!("{} -> {:?}", text.replace('\n', "; "), p.at));
            c.seen(&p.eqs.iter().map(|e| format!("{}={}", vmon::expr::shape(&e.l), vmon::expr::shape(&e.r))).collect::<Vec<_>>().join(";"));
        }
        first = Some(soln);
    }
    c.count(&format!("{} equations", p.eqs.len().min(9)));
}

fn comment(c: &mut Ctx, vars: &[String]) -> String {
    let v = c.rng.pick(vars).clone();
    let t = *c.rng.pick(&["guess 5 for @", "keep @ on [100, 200]", "const @ = 3", "@ = 99", "#g and #nonsense", "[m->nowhere]", "if @ > 3:",
        "else:", "end", "@ / / 2 = 3", "é ∑ λ", "// again // and again", "see http://example.com", "", "   ", "1 + 1 = 3", "keep @ on [0, 1] // x",
        "*/ /*", "const nothing = )", "[ft->m] * #R"]);
    let t = t.replace('@', &v);
    match c.rng.below(3) {
        0 => format!("//{t}"),
        1 => format!("// {t}"),
        _ => format!("//  {t} "),
    }
}

pub fn inert(c: &mut Ctx) {
    let Some(p) = Prog::random(c, true) else { return c.count("skipped") };
    let margin = 1e-6;
    let vars: Vec<String> = p.at.iter().map(|a| a.0.clone()).collect();
    let mut decls: Vec<String> = p.consts.iter().map(|(k, v)| format!("const {k} = {v}")).collect();
    for (n, v) in &p.at {
        if c.rng.chance(0.3) {
            decls.push(format!("guess {:.2} for {n}", c.rng.f(-30.0, 30.0)));
        }
        if c.rng.chance(0.2) {
            decls.push(format!("keep {n} on [{:.2}, {:.2}]", v - c.rng.f(200.0, 300.0), v + c.rng.f(200.0, 300.0)));
        }
    }
    let eqs = p.equations(c);
    let tol = if p.wild { p.sensitivity().map_or(f64::INFINITY, |s| (2.0 * s * margin).max(1e-4)) } else { 1e-4 };
    // Bodies and lines of a conditional stay together
    let mut blocks: Vec<Vec<String>> = decls.iter().chain(&eqs).map(|l| vec![l.clone()]).collect();
    let mut at = p.at.clone();
    if c.rng.chance(0.5) {
        let k = c.rng.range(-9, 9);
        let m = c.rng.range(-9, 9);
        let q = c.rng.range(-9, 9);
        let (k2, m2) = (c.rng.range(-9, 9), c.rng.range(-9, 9));
        let mut lines = vec![format!("if {k} < {m}:"), format!("    verdict = {q}"), "else:".into(), format!("    verdict = {}", q + 1), "end".into()];
        let mut it = if k < m { q } else { q + 1 };
        if c.rng.chance(0.4) {
            // One within the other
            lines.splice(3..4, [format!("    if {k2} > {m2}:"), format!("        verdict = {}", q + 1), "    else:".into(), format!("        verdict = {}", q + 2), "    end".into()]);
            if it == q + 1 && k2 <= m2 {
                it = q + 2;
            }
        }
        blocks.push(lines);
        at.push(("verdict".into(), it as f64));
    }
    let base = blocks.iter().map(|b| b.join("\n")).collect::<Vec<_>>().join("\n");
    let run = |t: &str| {
        let t = t.to_string();
        cut(move || solve_with_preprocessors(&t, margin, 100).map(|r| r.1).map_err(|e| e.to_string()))
    };
    let want = match run(&base) {
        Err(m) => return c.fail("panic", format!("{base}: {m}")),
        Ok(Err(e)) => return c.fail("not-solved", format!("{base}\n{e}, but {at:?} solves it")),
        Ok(Ok(s)) => s,
    };
    for (n, v) in &at {
        c.check(want.get(n).is_some_and(|x| (x - v).abs() <= tol), "value", || format!("{base}\n{n} is {:?}, not {v}", want.get(n)));
    }
    for _ in 0..3 {
        let mut changes = vec![];
        let mut blocks = blocks.clone();
        if c.rng.chance(0.4) {
            c.rng.shuffle(&mut blocks);
            changes.push("order");
        }
        let mut lines: Vec<String> = vec![];
        let (trail, full, blank, space) = (c.rng.chance(0.6), c.rng.chance(0.6), c.rng.chance(0.5), c.rng.chance(0.3));
        for b in &blocks {
            if blank && c.rng.chance(0.4) {
                lines.push(c.rng.pick(&["", "  ", "\t"]).to_string());
            }
            for (i, l) in b.iter().enumerate() {
                if full && c.rng.chance(0.4) {
                    // Between the lines of a conditional, too
                    lines.push(format!("{}{}", c.rng.pick(&["", "  ", "\t"]), comment(c, &vars)));
                }
                let mut l = l.clone();
                if space && c.rng.chance(0.5) {
                    // Lines of conditionals, too: how far they are indented says nothing
                    if b.len() > 1 {
                        l = l.trim().into();
                    }
                    l = format!("{}{l}{}", c.rng.pick(&["", " ", "\t", "    ", "        ", "\t\t", " \t  "]), c.rng.pick(&["", " ", "   ", "\t", "          "]));
                }
                if trail && c.rng.chance(0.5) {
                    l += *c.rng.pick(&["", " ", "\t", "  "]);
                    l += &comment(c, &vars);
                }
                lines.push(l);
                let _ = i;
            }
        }
        if full && c.rng.chance(0.5) {
            lines.push(comment(c, &vars));
        }
        for (on, n) in [(trail, "comments after lines"), (full, "comments on lines"), (blank, "blank lines"), (space, "spaces")] {
            if on {
                changes.push(n);
            }
        }
        let crlf = c.rng.chance(0.4);
        if crlf {
            changes.push("CRLF");
        }
        let mut text = lines.join(if crlf { "\r\n" } else { "\n" });
        if c.rng.chance(0.5) {
            text += if crlf { "\r\n" } else { "\n" };
        }
        for ch in &changes {
            c.count(ch);
        }
        match run(&text) {
            Err(m) => return c.fail("panic", format!("{text}: {m}")),
            Ok(Err(e)) => return c.fail("inert-refused", format!("{changes:?}:\n{text}\n{e}, but without them:\n{base}\n{want:?}")),
            Ok(Ok(s)) => {
                let same = s.len() == want.len() && want.iter().all(|(k, v)| s.get(k).is_some_and(|x| (x - v).abs() <= tol));
                c.check(same, "inert", || format!("{changes:?}:\n{text}\n{s:?}, but without them:\n{base}\n{want:?}"));
            }
        }
        c.seen(&text);
        c.sample("variant", || text.clone());
    }
}
