//! X10: the steps that are reported tell how the program was solved.
use crate::prog::Prog;
use geqslib::shunting::{new_context, ContextLike};
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::{BTreeSet, HashMap};
use std::fs;
use std::path::PathBuf;
use std::process::Command;
use vmon::expr::X;
use vmon::{cut, Ctx};

fn bare(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn names(x: &X, out: &mut BTreeSet<String>) {
    match x {
        X::Name(n) => {
            out.insert(n.clone());
        }
        X::Neg(a) => names(a, out),
        X::Bin(_, a, b) => {
            names(a, out);
            names(b, out);
        }
        X::Call(_, a) => a.iter().for_each(|x| names(x, out)),
        _ => {}
    }
}

/// The equations that a step names, without white space, and the variable of a step for one.
fn read(step: &str) -> (Vec<String>, Option<String>) {
    let (mut eqs, mut var) = (vec![], None);
    for line in step.lines() {
        let l = line.trim();
        if let Some(v) = l.strip_prefix("Var:") {
            var = Some(v.trim().trim_matches('"').to_string());
            continue;
        }
        let l = l.strip_prefix("Equation:").unwrap_or(l).trim();
        let l = l.strip_suffix(',').unwrap_or(l);
        let l = l.strip_prefix('"').and_then(|l| l.strip_suffix('"')).unwrap_or(l);
        if l.contains('=') {
            eqs.push(bare(l));
        }
    }
    (eqs, var)
}

struct Known {
    text: String,
    names: BTreeSet<String>,
}

/// Follows the steps and says what is wrong with them.
fn follow(c: &mut Ctx, log: &[String], eqs: &[Known], all: &BTreeSet<String>, verdict: bool) -> Result<(), (&'static str, String)> {
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut used = vec![false; eqs.len()];
    let mut own = verdict;
    for (i, step) in log.iter().enumerate() {
        let (named, var) = read(step);
        if named.is_empty() {
            return Err(("empty-step", format!("step {i} names no equation: {step:?}")));
        }
        let mut new: BTreeSet<String> = BTreeSet::new();
        for n in &named {
            match eqs.iter().position(|e| e.text == *n) {
                Some(k) if used[k] => return Err(("twice", format!("{n} occurs twice"))),
                Some(k) => {
                    used[k] = true;
                    new.extend(eqs[k].names.iter().filter(|v| all.contains(*v) && !done.contains(*v)).cloned());
                }
                None if own && n.contains("verdict") => {
                    own = false;
                    new.insert("verdict".into());
                    if n.contains("yonder") && !done.contains("yonder") {
                        new.insert("yonder".into());
                    }
                }
                None => return Err(("foreign", format!("step {i} names {n}, which the program does not contain"))),
            }
        }
        c.eval();
        if new.len() != named.len() {
            return Err(("not-determined", format!("step {i}: the {} equations {named:?} determine {new:?}", named.len())));
        }
        if let Some(v) = var {
            c.count("steps for one unknown");
            if named.len() != 1 || !new.contains(&v) {
                return Err(("variable", format!("step {i} says that {v} is found from {named:?}, which determines {new:?}")));
            }
        } else {
            c.count("steps for systems");
        }
        done.extend(new);
    }
    match used.iter().position(|u| !u) {
        Some(k) => return Err(("left-out", format!("{} is not accounted for", eqs[k].text))),
        None if own => return Err(("left-out", "the conditional is not accounted for".into())),
        None => {}
    }
    Ok(())
}

pub fn case(c: &mut Ctx) {
    let linear = c.rng.chance(0.7);
    let Some(p) = Prog::random(c, linear) else { return c.count("skipped") };
    let mut order: Vec<usize> = (0..p.eqs.len()).collect();
    let texts = p.equations(c);
    c.rng.shuffle(&mut order);
    let eqs: Vec<Known> = p.eqs.iter().zip(&texts).map(|(e, t)| {
        let mut n = BTreeSet::new();
        names(&e.l, &mut n);
        names(&e.r, &mut n);
        Known { text: bare(t), names: n }
    }).collect();
    let distinct: BTreeSet<&str> = eqs.iter().map(|e| e.text.as_str()).collect();
    if distinct.len() != eqs.len() {
        return c.count("skipped");
    }
    let mut all: BTreeSet<String> = p.at.iter().map(|a| a.0.clone()).collect();
    let lines: Vec<String> = order.iter().map(|&i| texts[i].clone()).collect();
    let tool = c.rng.chance(0.02);
    let direct = !tool && c.rng.chance(0.3);
    let mut verdict = false;
    let (text, res) = if direct {
        let mut ctx = new_context();
        for (k, v) in &p.consts {
            ctx.add_const_to_ctx(k, *v);
        }
        let mut declared: HashMap<String, [f64; 3]> = p.at.iter().map(|(n, v)| (n.clone(), [v + 0.1, f64::NEG_INFINITY, f64::INFINITY])).collect();
        let text = lines.join("\n");
        let t = text.clone();
        (text, cut(move || basic_solve(&t, &mut ctx, &mut declared, 1e-6, 100).map_err(|e| e.to_string())))
    } else {
        let mut all_lines: Vec<String> = p.consts.iter().map(|(k, v)| format!("const {k} = {v}")).collect();
        if !linear {
            all_lines.extend(p.guesses(c));
        }
        all_lines.extend(lines);
        if c.rng.chance(0.3) {
            verdict = true;
            let with = c.rng.chance(0.4);
            let (a, b) = (c.rng.range(-9, 9), c.rng.range(-9, 9));
            let left = if with { "yonder".to_string() } else { b.to_string() };
            let block = format!("if {left} < {a}:\n    verdict = {b}\nelse:\n    verdict = {}\nend", b + 1);
            let at = c.rng.below(all_lines.len() + 1);
            all_lines.insert(at, block);
            if with {
                all.insert("yonder".into());
            }
            c.count("conditionals");
        }
        let text = if all.contains("yonder") { all_lines.push("yonder = 2".into()); all_lines.join("\n") } else { all_lines.join("\n") };
        let t = text.clone();
        (text, cut(move || solve_with_preprocessors(&t, 1e-6, 100).map_err(|e| e.to_string())))
    };
    let mut eqs = eqs;
    if all.contains("yonder") {
        eqs.push(Known { text: "yonder=2".into(), names: ["yonder".to_string()].into() });
    }
    let log = match res {
        Err(m) => return c.fail("panic", format!("{text}: {m}")),
        Ok(Err(_)) => return c.count("no answer"),
        Ok(Ok((log, _))) => log,
    };
    c.count("programs");
    c.seen(&(text.len(), log.iter().map(|s| read(s).0.len()).collect::<Vec<_>>(), distinct_shape(&p)));
    if let Err((sig, why)) = follow(c, &log, &eqs, &all, verdict) {
        c.fail(sig, format!("{text}\n{why} in {log:#?}"));
    }
    c.sample("steps", || format!("{} -> {:?}", text.replace('\n', "; "), log.iter().map(|s| read(s)).collect::<Vec<_>>()));
    if tool {
        by_tool(c, &text, &eqs, &all, verdict, linear);
    }
}

fn distinct_shape(p: &Prog) -> String {
    p.eqs.iter().map(|e| format!("{}={}", vmon::expr::shape(&e.l), vmon::expr::shape(&e.r))).collect::<Vec<_>>().join(";")
}

/// What the tool prints under `Procedure` accounts for the equations, too.
fn by_tool(c: &mut Ctx, text: &str, eqs: &[Known], all: &BTreeSet<String>, verdict: bool, linear: bool) {
    let Ok(exe) = std::env::var("VMON_NXC") else { return c.fail("no-tool", "nxc could not be run".into()) };
    let d = PathBuf::from(format!("{}/steps-{}-{}", c.scratch, std::process::id(), c.case));
    fs::create_dir_all(&d).expect("scratch directory");
    fs::write(d.join("model.nxs"), text).expect("scratch file");
    let to_file = c.rng.chance(0.5);
    let mut cmd = Command::new(exe);
    cmd.args(["model.nxs", "-tol", "1e-6"]).current_dir(&d);
    if to_file {
        cmd.arg("-o");
    }
    let out = match vmon::run_tool(&mut cmd) {
        Ok(o) => o.1,
        Err(e) => {
            let _ = fs::remove_dir_all(&d);
            return c.fail("no-end", format!("{text}\n{e}"));
        }
    };
    let out = if to_file { fs::read_to_string(d.join("model.txt")).unwrap_or(out) } else { out };
    let _ = fs::remove_dir_all(&d);
    c.count("procedures of the tool");
    let Some((_, procedure)) = out.split_once("Procedure:") else {
        // Whether the search for a nonlinear solution ends may depend on the order of the unknowns in memory
        if !linear && out.contains("ERR") {
            return c.count("no answer of the tool");
        }
        return c.fail("no-procedure", format!("{text}\nthe tool answers {out:?}"));
    };
    // Steps are found again by the lines that they begin with
    let mut steps: Vec<String> = vec![];
    for l in procedure.lines().filter(|l| !l.trim_matches(['+', '=', '-']).is_empty()) {
        if l.starts_with("Var:") || l.trim() == "[" || steps.is_empty() {
            steps.push(String::new());
        }
        if let Some(s) = steps.last_mut() {
            *s += l;
            s.push('\n');
        }
    }
    steps.retain(|s| !read(s).0.is_empty());
    if let Err((sig, why)) = follow(c, &steps, eqs, all, verdict) {
        c.fail(&format!("tool-{sig}"), format!("{text}\n{why} in {procedure}"));
    }
}
