//! S04: what a system under construction contains, against a model of it.
use crate::names::POOL;
use geqslib::shunting::{new_context, ContextLike};
use geqslib::system::{get_equation_unknowns, ConstrainResult, SystemBuilder};
use std::collections::BTreeSet;
use vmon::expr::{bin, name, num, X};
use vmon::{cut, Ctx};

type Set = BTreeSet<String>;

#[derive(Clone)]
struct Eqn {
    text: String,
    vars: Set,
    good: bool,
}

/// An equation over some names; now and then it is not one.
fn equation(c: &mut Ctx, pool: &[String], consts: &[String]) -> Eqn {
    let k = *c.rng.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4]);
    let mut names = pool.to_vec();
    c.rng.shuffle(&mut names);
    names.truncate(k);
    let vars: Set = names.iter().cloned().collect();
    let mut parts: Vec<X> = vec![];
    for v in &names {
        let k = num(format!("{}", c.rng.range(1, 9)));
        let part = match c.rng.below(4) {
            0 => name(v),
            1 => bin('*', k, name(v)),
            2 => {
                // Somewhere else again
                parts.push(name(v));
                bin('*', k, name(v))
            }
            _ => X::Call("sin".into(), vec![name(v)]),
        };
        parts.push(part);
    }
    for v in consts {
        if c.rng.chance(0.3) {
            parts.push(name(v));
        }
    }
    parts.push(num(format!("{}", c.rng.range(1, 99))));
    if c.rng.chance(0.3) {
        parts.push(bin('*', num("2"), name(*c.rng.pick(&["pi", "e"]))));
    }
    c.rng.shuffle(&mut parts);
    let at = c.rng.below(parts.len() + 1);
    let sum = |p: &[X]| p.iter().cloned().reduce(|a, b| bin('+', a, b)).unwrap_or(num("0"));
    let (l, r) = (sum(&parts[..at]), sum(&parts[at..]));
    let (mut l, r) = (vmon::expr::print(&l, &mut c.rng, &vmon::expr::BLANKS), vmon::expr::print(&r, &mut c.rng, &vmon::expr::BLANKS));
    let good = !c.rng.chance(0.12);
    let mut between = " = ";
    if !good {
        match c.rng.below(5) {
            0 => l = format!("({l}"),
            1 => l += " +",
            2 => l = format!("{l} 3 4"),
            3 => between = " == ",
            _ => between = " + ",
        }
    }
    Eqn { text: format!("{l}{between}{r}"), vars, good }
}

pub fn case(c: &mut Ctx) {
    let mut pool: Vec<String> = POOL.iter().map(|s| s.to_string()).collect();
    c.rng.shuffle(&mut pool);
    let consts = pool.split_off(c.rng.us(3, 7));
    let consts: Vec<String> = consts.into_iter().take(3).collect();
    let mut ctx = new_context();
    for k in &consts {
        ctx.add_const_to_ctx(k, c.rng.f(-5.0, 5.0));
    }
    // Variables that no equation has anything to do with
    let strangers = ["stranger", "x_3"];
    for v in strangers {
        match c.rng.below(5) {
            0 => ctx.add_var_to_ctx(v, 1.5),
            1 => ctx.add_var_with_domain_to_ctx(v, 0.0, -3.0, 3.0),
            _ => {}
        }
    }
    let first = equation(c, &pool, &consts);

    // Which names of an equation are unknown
    let unknowns: Result<Set, String> = cut(|| get_equation_unknowns(&first.text, &ctx).map(|s| s.to_string()).collect());
    c.check(unknowns.as_ref() == Ok(&first.vars), "unknowns", || format!("{}: {unknowns:?}, expected {:?}", first.text, first.vars));

    let mut b = match cut(|| SystemBuilder::new(&first.text, ctx)) {
        Err(p) => return c.fail("panic", format!("{}: {p}", first.text)),
        Ok(Err(_)) => {
            c.count("not built");
            c.check(!first.good, "refused", || format!("no system is built from {}", first.text));
            return;
        }
        Ok(Ok(b)) => b,
    };
    if !c.check(first.good, "accepted", || format!("a system is built from {}", first.text)) {
        return;
    }
    let mut vars = first.vars.clone();
    let mut eqs = 1;
    let mut log = vec![format!("new {:?}", first.text)];
    let steps = c.rng.us(1, 12);
    for _ in 0..steps {
        if c.rng.chance(0.12) {
            // A batch
            let n = c.rng.us(0, 6);
            let mut batch: Vec<Eqn> = (0..n).map(|_| equation(c, &pool, &consts)).collect();
            // Equations that are there already, or come several times, count as often as they come
            while c.rng.chance(0.3) {
                let again = if batch.is_empty() || c.rng.chance(0.3) { first.clone() } else { c.rng.pick(&batch).clone() };
                let at = c.rng.below(batch.len() + 1);
                batch.insert(at, again);
            }
            // Many that are of no use in front of those that are, or only once all the later ones are in
            if c.rng.chance(0.25) {
                let many = c.rng.us(10, 70);
                let of_no_use = c.rng.chance(0.6);
                let tag = log.len();
                let known = vars.iter().next().cloned().unwrap_or("nobody".into());
                for i in 0..many {
                    let (u, v) = if of_no_use {
                        (format!("u{tag}_{i}"), format!("v{tag}_{i}"))
                    } else {
                        (format!("w{tag}_{i}"), if i == 0 { known.clone() } else { format!("w{tag}_{}", i - 1) })
                    };
                    let q = Eqn { text: format!("{u} - 2 * {v} = 1"), vars: [u, v].into_iter().collect(), good: true };
                    let at = if c.rng.chance(0.9) { 0 } else { c.rng.below(batch.len() + 1) };
                    batch.insert(at, q);
                }
                c.count("long batches");
            }
            let texts: Vec<&str> = batch.iter().map(|e| e.text.as_str()).collect();
            log.push(format!("batch {texts:?}"));
            let got = match cut(|| b.try_fully_constrain_with(texts)) {
                Err(p) => return c.fail("panic", format!("{}: {p}", log.join("; "))),
                Ok(r) => r.map_err(|e| e.to_string()),
            };
            if batch.iter().any(|e| !e.good) {
                // Which of the others it takes before it meets the bad one is open, but it cannot pass over a bad one
                // that it could use, unless the others are enough
                let (mut v, mut e) = (vars.clone(), eqs);
                let mut left: Vec<&Eqn> = batch.iter().filter(|q| q.good).collect();
                while v.len() != e {
                    let Some(i) = left.iter().position(|q| q.vars.difference(&v).count() <= 1) else { break };
                    v.extend(left.remove(i).vars.iter().cloned());
                    e += 1;
                }
                let full = v.len() == e;
                let usable = batch.iter().any(|q| !q.good && q.vars.difference(&v).count() <= 1);
                c.count("batches with malformed equations");
                let ok = match &got {
                    Err(_) => eqs != vars.len(),
                    Ok(true) => full || eqs == vars.len(),
                    Ok(false) => !full && !usable,
                };
                c.check(ok, "malformed-batch", || format!("{}: {got:?}", log.join("; ")));
                return;
            }
            let (mut v, mut e) = (vars.clone(), eqs);
            let mut left: Vec<&Eqn> = batch.iter().collect();
            while v.len() != e {
                let Some(i) = left.iter().position(|q| q.vars.difference(&v).count() <= 1) else { break };
                v.extend(left.remove(i).vars.iter().cloned());
                e += 1;
            }
            c.count("batches");
            c.check(got == Ok(v.len() == e), "batch", || format!("{}: {got:?}, expected {}", log.join("; "), v.len() == e));
            if c.failed() {
                return;
            }
            // Which equations it took depends on the order: follow what it has
            let now: Set = b.get_vars().iter().cloned().collect();
            let all: Set = v.iter().cloned().collect();
            if v.len() == e {
                let possible = vars.union(&batch.iter().flat_map(|q| q.vars.iter().cloned()).collect()).cloned().collect::<Set>();
                c.check(now.is_superset(&vars) && now.is_subset(&possible), "batch-vars", || format!("{}: {now:?}", log.join("; ")));
                vars = now;
                eqs = vars.len();
            } else {
                c.check(now == all, "batch-vars", || format!("{}: {now:?}, expected {all:?}", log.join("; ")));
                (vars, eqs) = (v, e);
            }
        } else {
            let q = if c.rng.chance(0.06) { first.clone() } else { equation(c, &pool, &consts) };
            let fresh: Set = q.vars.difference(&vars).cloned().collect();
            // Either of the ways to add an equation
            let connect = c.rng.chance(0.25);
            let apart = q.vars.intersection(&vars).count() == 0;
            log.push(format!("{} {:?}", if connect { "connect" } else { "add" }, q.text));
            let got = match cut(|| if connect { b.connect_with(&q.text) } else { b.try_constrain_with(&q.text) }) {
                Err(p) => return c.fail("panic", format!("{}: {p}", log.join("; "))),
                Ok(r) => r.map_err(|e| e.to_string()),
            };
            c.count("added");
            let ok = if vars.len() == eqs {
                c.count("full");
                got == Ok(ConstrainResult::WillOverConstrain) || (!q.good && got.is_err())
            } else if !q.good {
                c.count("malformed");
                got.is_err() || ((if connect { apart } else { fresh.len() > 1 }) && got == Ok(ConstrainResult::WillNotConstrain))
            } else if connect {
                c.count("connected");
                got == Ok(if apart { ConstrainResult::WillNotConstrain } else { ConstrainResult::WillConstrain })
            } else if fresh.len() > 1 {
                c.count("too many unknowns");
                got == Ok(ConstrainResult::WillNotConstrain)
            } else {
                got == Ok(ConstrainResult::WillConstrain)
            };
            c.check(ok, "constrain", || format!("{}: {got:?} with {vars:?} in {eqs} equations", log.join("; ")));
            if ok && got == Ok(ConstrainResult::WillConstrain) {
                vars.extend(fresh);
                eqs += 1;
            }
        }
        let now: Vec<String> = b.get_vars().clone();
        let set: Set = now.iter().cloned().collect();
        c.check(set == vars && now.len() == vars.len(), "vars", || format!("{}: {now:?}, expected {vars:?}", log.join("; ")));
        let full = b.is_fully_constrained();
        c.check(full == (vars.len() == eqs), "full", || format!("{}: fully constrained is {full} with {vars:?} in {eqs} equations", log.join("; ")));
        if c.failed() {
            return;
        }
    }
    c.seen(&log.iter().map(|l| l.split(' ').next().unwrap_or("")).collect::<Vec<_>>().join(" ").to_string());
    c.seen(&log.join(";"));
    c.sample("history", || log.join("; "));
    let full = vars.len() == eqs;
    match cut(|| b.build_system()) {
        Err(p) => c.fail("panic", format!("{}: {p}", log.join("; "))),
        Ok(s) => {
            c.check(s.is_some() == full, "build", || format!("{}: built is {}, fully constrained is {full}", log.join("; "), s.is_some()));
            let Some(mut s) = s else { return };
            c.count("built");
            // Only the variables of the system can be specified
            for v in &vars {
                c.check(s.specify_variable(v, 0.5, -1.0, 1.0), "specify", || format!("{}: cannot specify {v}", log.join("; ")));
            }
            for v in pool.iter().chain(&consts).map(|s| s.as_str()).chain(["pi", "sin", "nobody"]).chain(strangers) {
                if !vars.contains(v) {
                    let r = cut(|| s.specify_variable(v, 0.5, -1.0, 1.0));
                    c.check(r == Ok(false), "specify-other", || format!("{}: specifying {v} gives {r:?}", log.join("; ")));
                }
            }
            // ... and a solution has a value for each of them, where it belongs
            if let Ok(r) = cut(|| s.solve(1e-3, 20)) {
                if let Ok(p) = r {
                    c.count("solved");
                    let names: Set = p.keys().cloned().collect();
                    c.check(names == vars, "solution-names", || format!("{}: {p:?}", log.join("; ")));
                    c.check(p.values().all(|v| *v >= -1.0 && *v <= 1.0), "solution-domain", || format!("{}: {p:?}", log.join("; ")));
                }
            } else {
                c.fail("panic", format!("solving {}", log.join("; ")));
            }
        }
    }
}
