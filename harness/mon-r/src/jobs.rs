//! Calls of every part of the libraries whose answers are known beforehand. The calls of a pool
//! share texts and names as far as possible, and differ in what these stand for.
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use geqslib::shunting::{compile_to_fn, compile_to_fn_of_hashmap, eval_str, eval_str_with_context, new_context, ContextHashMap, ContextLike};
use geqslib::system::SystemBuilder;
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use gmatlib::Matrix;
use neapolitan::modelling::{GenericElement, GenericNode};
use neapolitan::{get_node_potential, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::rc::{Rc, Weak};
use vmon::expr::{self, judge, Env, X};
use vmon::Ctx;

pub enum Want {
    Values(Vec<(String, f64)>, f64),
    Error,
    Anything,
}

type Answer = Result<Vec<(String, f64)>, String>;

pub struct Job {
    pub kind: &'static str,
    pub label: String,
    pub run: Box<dyn Fn() -> Answer + Send + Sync>,
    pub want: Want,
}

fn one(v: f64) -> Vec<(String, f64)> {
    vec![("value".into(), v)]
}

fn plus_one(a: &[f64]) -> f64 {
    a[0] + 1.0
}
fn twice(a: &[f64]) -> f64 {
    a[0] * 2.0
}
/// A function of the caller's that uses the library itself
fn nested(a: &[f64]) -> f64 {
    eval_str("2 * 3 + (1 - 4)").unwrap_or(f64::NAN) * a[0]
}
fn nested_solver(a: &[f64]) -> f64 {
    solve_equation_from_str("2 * x + 4 = 10", 1e-9, 50).map(|s| s.1).unwrap_or(f64::NAN).round() * a[0]
}
fn falls_over(_: &[f64]) -> f64 {
    panic!("a function of the caller's falls over")
}

type Fun = fn(&[f64]) -> f64;

fn context(consts: &[(String, f64)], f: Fun) -> ContextHashMap {
    let mut ctx = new_context();
    for (k, v) in consts {
        ctx.add_const_to_ctx(k, *v);
    }
    ctx.add_func_to_ctx("f", f, 1);
    ctx
}

fn pairs(m: impl IntoIterator<Item = (String, f64)>) -> Answer {
    let mut v: Vec<(String, f64)> = m.into_iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(v)
}

fn text(e: impl std::fmt::Display) -> String {
    e.to_string()
}

type End = Weak<RefCell<GenericNode>>;
type Node = Rc<RefCell<GenericNode>>;

fn drop_of(i: &Node, o: &Node) -> f64 {
    let at = |n: &Node| get_node_potential(&Rc::downgrade(n)).map_or(f64::NAN, |p| p[(0, 0)]);
    at(i) - at(o)
}
fn law_a(i: Node, o: Node, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(vec![g[(0, 0)] * drop_of(&i, &o)]))
}
fn law_b(i: Node, o: Node, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(vec![g[(0, 0)] * g[(0, 0)] * drop_of(&i, &o)]))
}
fn law_panic(_: Node, _: Node, _: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    panic!("an element of the caller's falls over")
}
fn law_fail(_: Node, _: Node, _: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    anyhow::bail!("no flux")
}
fn thing_a(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, law_a, false, true, true)
}
fn thing_b(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, law_b, false, true, true)
}
fn thing_panic(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, law_panic, false, true, true)
}
fn thing_fail(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, law_fail, false, true, true)
}

/// Potentials of a network of two elements between two fixed nodes.
fn divider(law: usize, ends: [f64; 2], gains: [f64; 2]) -> Answer {
    let b = match law {
        0 => NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).map_err(text)?,
        l => {
            let make = [thing_a, thing_b, thing_panic, thing_fail][l - 1];
            let k = NodalAnalysisStudyConfigurator::new(1).add_element_type("resistor", make).map_err(text)?;
            NodalAnalysisStudyBuilder::new("dc_circuit".into(), Some(HashMap::from([("dc_circuit".to_string(), k)]))).map_err(text)?
        }
    };
    let b = b.add_nodes(3).configure_node(0, vec![ends[0]], true, None).configure_node(2, vec![ends[1]], true, None);
    let b = b.add_element("resistor", 0, 1, vec![gains[0]]).map_err(text)?.add_element("resistor", 1, 2, vec![gains[1]]).map_err(text)?;
    let r = b.run_study(1e-7, 100).map_err(text)?;
    let v = serde_json::to_value(&r).map_err(text)?;
    let nodes = v.get("nodes").and_then(|n| n.as_object()).ok_or("no nodes")?;
    pairs(nodes.iter().map(|(k, v)| (k.clone(), v[0].as_f64().unwrap_or(f64::NAN))))
}

/// Potentials of a network with a source: 0 is fixed at `end`, and `source` lifts 1 from there,
/// which drives 2 and, through the second element, 0 again. The second element is of a law of
/// the caller's.
fn driven(law: usize, end: f64, lift: f64, gains: [f64; 2]) -> Answer {
    let make = [thing_a, thing_b, thing_panic, thing_fail][law];
    let (study, source, conducts) = if gains[0] > 2.0 { ("dc_circuit", "voltage_source", "resistor") } else { ("heat_transfer", "temperature_delta", "convection_interface") };
    let k = neapolitan::default_study_builder_config().remove(study).ok_or("no such study")?.add_element_type("thing", make).map_err(text)?;
    let plain = NodalAnalysisStudyBuilder::new(study.into(), Some(HashMap::from([(study.to_string(), k)]))).map_err(text)?;
    let b = plain.add_nodes(3).configure_node(0, vec![end], true, None);
    let b = b.add_element(source, 0, 1, vec![lift]).map_err(text)?.add_element(conducts, 1, 2, vec![gains[0]]).map_err(text)?;
    let b = b.add_element("thing", 2, 0, vec![gains[1]]).map_err(text)?;
    // What does not work is next to the source
    let b = if law >= 2 { b.add_element("thing", 1, 0, vec![gains[1]]).map_err(text)? } else { b };
    let r = b.run_study(1e-7, 100).map_err(text)?;
    let v = serde_json::to_value(&r).map_err(text)?;
    let nodes = v.get("nodes").and_then(|n| n.as_object()).ok_or("no nodes")?;
    pairs(nodes.iter().map(|(k, v)| (k.clone(), v[0].as_f64().unwrap_or(f64::NAN))))
}

/// Something that fails every time, without an answer.
fn failing(which: usize) -> Answer {
    match which {
        0 => driven(3, 1.0, 2.0, [3.0, 1.0]),
        1 => divider(4, [1.0, 2.0], [1.0, 2.0]),
        2 => pairs(nexsys::solve_with_preprocessors("x = f((", 1e-6, 60).map_err(text)?.1),
        3 => eval_str("2 * (k + (3)").map(one).map_err(text),
        4 => eval_str("sin()").map(one).map_err(text),
        5 => nexsys::units::convert("ft", "s").map(one).map_err(text),
        6 => pairs(nexsys::solve_with_preprocessors("x + y = 3\nx + y = 4\n", 1e-6, 5).map_err(text)?.1),
        7 => {
            let mut a: Matrix<f64> = Matrix::from_vec(2, vec![1.0; 4]).map_err(text)?;
            a.try_inplace_invert().map_err(text)?;
            Ok(one(a[(0, 0)]))
        }
        8 => {
            let e: anyhow::Result<f64> = newton_raphson(|_| anyhow::bail!("no value"), 1.0, 1e-6, 10);
            e.map(one).map_err(text)
        }
        9 => {
            let mut b = SystemBuilder::new("x + y = 3", new_context()).map_err(text)?;
            b.try_constrain_with("x - y = (").map_err(text)?;
            Ok(vec![])
        }
        10 => {
            let mut guess = HashMap::from([("a".to_string(), 1.0), ("b".to_string(), 1.0)]);
            multivariate_newton_raphson(vec![|_: &HashMap<String, f64>| -> anyhow::Result<f64> { anyhow::bail!("no value") }; 2], &mut guess, 1e-7, 60).map_err(text)?;
            pairs(guess)
        }
        _ => {
            NodalAnalysisStudyBuilder::new("ac_circuit".into(), None).map_err(text)?;
            Ok(vec![])
        }
    }
}

const BAD: [&str; 12] = ["(1 + 2", "3 +", "k k", "f(1,", ")", "", "sin()", "2 * (k + (3)", "* 4", "f(k, m)", "1 + ((2 * 3)", "k + q_unknown"];
const BAD_PROGRAMS: [&str; 8] = ["x = 1 +", "x = #nonsense", "x = [ft->s] * 2", "const k = )\nx = k", "if 1 =< 2:\n    x = 1\nelse:\n    x = 3\nend", "x = f((",
    "keep x on [0, 1]\nx = 40", "x + y = 3\nx + y = 4\n"];

pub fn pool(c: &mut Ctx) -> Vec<Job> {
    let vars: Vec<String> = ["k", "m", "n"].iter().map(|s| s.to_string()).collect();
    let mut funcs: Vec<(String, usize)> = Env::standard().funcs.iter().filter(|f| f.0 != "if").map(|(k, v)| (k.clone(), v.0)).collect();
    funcs.sort();
    funcs.push(("f".into(), 1));
    let shared: Vec<(X, String)> = (0..2).map(|_| {
        let d = c.rng.us(1, 4);
        let x = expr::random(&mut c.rng, &vars, &funcs, d);
        let t = expr::print(&x, &mut c.rng, &expr::SPACES);
        (x, t)
    }).collect();
    let count = c.rng.us(5, 12);
    let mut out = vec![];
    while out.len() < count {
        if let Some(j) = job(c, &shared) {
            out.push(j);
        }
    }
    out
}

fn eighths(v: f64) -> f64 {
    (v * 8.0).round() / 8.0
}

fn vars_of<'a>(t: &str, consts: &'a [(String, f64)]) -> Vec<&'a String> {
    consts.iter().map(|c| &c.0).filter(|k| geqslib::shunting::get_legal_variables_iter(t).any(|w| w == k.as_str())).collect()
}

fn job(c: &mut Ctx, shared: &[(X, String)]) -> Option<Job> {
    let consts: Vec<(String, f64)> = ["k", "m", "n"].iter().map(|s| (s.to_string(), eighths(c.rng.f(0.5, 6.0)))).collect();
    let (k, m, n) = (consts[0].1, consts[1].1, consts[2].1);
    let (name, f): (&str, Fun) = *c.rng.pick(&[("plus_one", plus_one as Fun), ("twice", twice), ("nested", nested), ("nested_solver", nested_solver)]);
    let plain: fn(&[f64]) -> f64 = match name {
        "plus_one" => plus_one,
        "twice" => twice,
        _ => |a| a[0] * 3.0,
    };
    let mut env = Env::standard();
    for (k, v) in &consts {
        env.vals.insert(k.clone(), *v);
    }
    env.funcs.insert("f".into(), (1, plain));
    let what = format!("k={k} m={m} n={n} f={name}");
    Some(match c.rng.below(29) {
        27 => {
            let law = c.rng.below(4);
            let (lift, gains) = (m, [n, k]);
            // The current goes round
            let g = [if n > 2.0 { 1.0 / n } else { n }, [k, k * k, f64::NAN, f64::NAN][law]];
            let want = match law {
                2 => Want::Anything,
                3 => Want::Error,
                _ => Want::Values(vec![("0".into(), 2.0), ("1".into(), 2.0 + m), ("2".into(), 2.0 + m * g[0] / (g[0] + g[1]))], 1e-4),
            };
            Job { kind: if law >= 2 { "failing functions" } else { "networks" }, label: format!("driven network with law {law}, {what}"), want, run: Box::new(move || driven(law, 2.0, lift, gains)) }
        }
        28 if c.rng.chance(0.02) => {
            // A great many failures, and then the same kind of thing without one
            let (which, count) = (c.rng.below(12), c.rng.us(500, 6000));
            // Conversions read their tables every time
            let count = if which == 5 { count / 30 } else { count };
            let mut want = vec![("0".to_string(), 2.0), ("1".to_string(), 2.0 + m), ("2".to_string(), 2.0 + m / (1.0 + 3.0 * k))];
            want.extend([("value".to_string(), (n - m) / k), ("a".to_string(), 2.0 * m), ("x".to_string(), (m + n) / 2.0), ("y".to_string(), (m - n) / 2.0)]);
            Job { kind: "long histories", label: format!("{count} times failure {which}, {what}"), want: Want::Values(want, 1e-4), run: Box::new(move || {
                for _ in 0..count {
                    if failing(which).is_ok() {
                        return Err("a failure did not fail".into());
                    }
                }
                let mut all = driven(0, 2.0, m, [3.0, k])?;
                all.push(("value".into(), eval_str_with_context("(n - m) / k", &context(&consts, f)).map_err(text)?));
                all.push(("a".into(), newton_raphson(|a| Ok::<f64, anyhow::Error>(a - 2.0 * m), 1.0, 1e-7, 60).map_err(text)?));
                let t = format!("const m = {m}\nconst n = {n}\nx + y = m\nx - y = n");
                all.extend(nexsys::solve_with_preprocessors(&t, 1e-7, 60).map_err(text)?.1.into_iter().filter(|p| p.0 == "x" || p.0 == "y"));
                Ok(all)
            }) }
        }
        28 => return None,
        0..=2 => {
            let (x, t) = c.rng.pick(shared).clone();
            let (want, tol) = judge(&x, &env, &mut c.rng)?;
            let want = match want {
                Ok(v) => Want::Values(one(v), tol + 1e-9 * v.abs()),
                Err(_) => Want::Error,
            };
            Job { kind: "evaluations", label: format!("eval {t} {what}"), want, run: Box::new(move || eval_str_with_context(&t, &context(&consts, f)).map(one).map_err(text)) }
        }
        3 | 4 => {
            let t = *c.rng.pick(&BAD);
            match c.rng.below(3) {
                0 => Job { kind: "refusals", label: format!("eval {t}"), want: Want::Error, run: Box::new(move || eval_str_with_context(t, &context(&consts, f)).map(one).map_err(text)) },
                1 => Job { kind: "refusals", label: format!("equation {t} = x"), want: Want::Error,
                    run: Box::new(move || solve_equation_with_context(&format!("{t} = x"), &mut context(&consts, f), 1.0, -1e9, 1e9, 1e-6, 0).map(|s| one(s.1)).map_err(text)) },
                _ => {
                    let t = *c.rng.pick(&BAD_PROGRAMS);
                    Job { kind: "refusals", label: format!("program {t}"), want: Want::Error, run: Box::new(move || pairs(nexsys::solve_with_preprocessors(t, 1e-6, 60).map_err(text)?.1)) }
                }
            }
        }
        5 | 6 => {
            // Compiled once, called at several points
            let (x, t) = c.rng.pick(shared).clone();
            let mut points: Vec<HashMap<String, f64>> = vec![];
            let (mut want, mut worst) = (vec![], 0.0f64);
            for i in 0..c.rng.us(1, 3) {
                let p: HashMap<String, f64> = consts.iter().map(|(k, _)| (k.clone(), eighths(c.rng.f(0.5, 6.0)))).collect();
                for (k, v) in &p {
                    env.vals.insert(k.clone(), *v);
                }
                let (v, tol) = judge(&x, &env, &mut c.rng)?;
                let v = v.ok()?;
                want.push((i.to_string(), v));
                worst = worst.max(tol + 1e-9 * v.abs());
                points.push(p);
            }
            let names: Vec<String> = consts.iter().map(|c| c.0.clone()).collect();
            Job { kind: "compiled expressions", label: format!("compile {t} at {points:?} f={name}"), want: Want::Values(want, worst), run: Box::new(move || {
                let mut ctx = context(&[], f);
                for k in &names {
                    ctx.add_var_to_ctx(k, 1.0);
                }
                let g = compile_to_fn_of_hashmap(&t, &ctx).map_err(text)?;
                points.iter().enumerate().map(|(i, p)| Ok((i.to_string(), g(p).map_err(text)?))).collect()
            }) }
        }
        25 | 26 => {
            // Tiny steps that lead nowhere: there is a jump where the root would be
            let (at, jump) = (c.rng.f(-5.0, 5.0), c.rng.f(1.0, 9.0));
            let one = c.rng.chance(0.3);
            Job { kind: "searches", label: format!("a jump by {jump} at {at}, one unknown {one}"), want: Want::Error, run: Box::new(move || {
                let f = move |x: f64| 1e9 * (x - at) + if x >= at { jump } else { -jump };
                if one {
                    return newton_raphson(|x| Ok::<f64, anyhow::Error>(f(x)), at, 1e-6, 5).map(self::one).map_err(text);
                }
                let mut guess = HashMap::from([("a".to_string(), at), ("b".to_string(), at)]);
                multivariate_newton_raphson(["a", "b"].map(|k| move |p: &HashMap<String, f64>| Ok::<f64, anyhow::Error>(f(p[k]))).into(), &mut guess, 1e-6, 5).map_err(text)?;
                pairs(guess)
            }) }
        }
        22..=24 => {
            // The same names as constants, as variables, and not at all
            let (x, t) = c.rng.pick(shared).clone();
            let used: Vec<&String> = vars_of(&t, &consts);
            let missing = if c.rng.chance(0.15) { Some(c.rng.below(3)) } else { None };
            let open: Vec<bool> = (0..3).map(|_| c.rng.chance(0.4)).collect();
            let (v, tol) = judge(&x, &env, &mut c.rng)?;
            let absent = missing.is_some_and(|i| used.contains(&&consts[i].0));
            let want = match v {
                _ if absent => Want::Error,
                Ok(v) => Want::Values(one(v), tol + 1e-9 * v.abs()),
                Err(_) => Want::Error,
            };
            let only = (0..3).filter(|i| open[*i] && missing != Some(*i)).collect::<Vec<_>>();
            let single = only.len() == 1 && c.rng.chance(0.7);
            Job { kind: "compiled expressions", label: format!("compile {t} {what} variables {open:?} without {missing:?} single {single}"), want, run: Box::new(move || {
                let mut ctx = context(&[], f);
                let mut p = HashMap::new();
                for (i, (k, v)) in consts.iter().enumerate().filter(|c| missing != Some(c.0)) {
                    if open[i] {
                        ctx.add_var_to_ctx(k, 1.0);
                        p.insert(k.clone(), *v);
                    } else {
                        ctx.add_const_to_ctx(k, *v);
                    }
                }
                if single {
                    return compile_to_fn(&t, &ctx).map_err(text)?(consts[only[0]].1).map(one).map_err(text);
                }
                compile_to_fn_of_hashmap(&t, &ctx).map_err(text)?(&p).map(one).map_err(text)
            }) }
        }
        7 => Job { kind: "equations", label: format!("k * x + m = n with {what}"), want: Want::Values(vec![("x".into(), (n - m) / k)], 1e-5),
            run: Box::new(move || solve_equation_with_context("k * x + m = n", &mut context(&consts, f), 1.0, f64::NEG_INFINITY, f64::INFINITY, 1e-7, 60).map(|s| vec![s]).map_err(text)) },
        8 => {
            let lo = c.rng.chance(0.5);
            let root = if lo { -(k.sqrt()) } else { k.sqrt() };
            Job { kind: "equations", label: format!("x ^ 2 = k in a domain, {what}"), want: Want::Values(vec![("x".into(), root)], 1e-4), run: Box::new(move || {
                let (min, max) = if lo { (-100.0, -1e-3) } else { (1e-3, 100.0) };
                solve_equation_with_context("x ^ 2 = k", &mut context(&consts, f), if lo { -2.0 } else { 2.0 }, min, max, 1e-8, 60).map(|s| vec![s]).map_err(text)
            }) }
        }
        9 | 10 => {
            let y = (m - n) / (k + 1.0);
            let guess = c.rng.f(-20.0, 20.0);
            Job { kind: "systems", label: format!("x + k * y = m, x - y = n with {what}"), want: Want::Values(vec![("x".into(), n + y), ("y".into(), y)], 1e-5), run: Box::new(move || {
                let mut b = SystemBuilder::new("x + k * y = m", context(&consts, f)).map_err(text)?;
                let _ = b.try_constrain_with("x - y = (");
                b.try_constrain_with("x - y = n").map_err(text)?;
                let mut s = b.build_system().ok_or("not constrained")?;
                s.specify_variable("x", guess, -1e6, 1e6);
                pairs(s.solve(1e-7, 60).map_err(text)?)
            }) }
        }
        11 | 12 => {
            let (x, y) = ((n - m) / k, m - (n - m) / k);
            let t = format!("const k = {k}\nconst m = {m}\nconst n = {n}\nk * x + m = n\nx + y = m\nif x > y:\n    verdict = k\nelse:\n    verdict = m\nend\nlength = [ft->in] * k\ngas = #R\n");
            if (x - y).abs() < 1e-3 {
                return None;
            }
            let want = vec![("x".into(), x), ("y".into(), y), ("verdict".into(), if x > y { k } else { m }), ("length".into(), 12.0 * k), ("k".into(), k)];
            Job { kind: "programs", label: format!("program {t}"), want: Want::Values(want, 1e-4), run: Box::new(move || pairs(nexsys::solve_with_preprocessors(&t, 1e-7, 60).map_err(text)?.1)) }
        }
        13 => {
            let r = if c.rng.chance(0.5) { 1.0 } else { -1.0 };
            let t = format!("const k = {k}\nguess {} for x\nkeep x on [-50, 50]\nx ^ 2 = k", r * 3.0);
            Job { kind: "programs", label: format!("program {t}"), want: Want::Values(vec![("x".into(), r * k.sqrt())], 1e-3), run: Box::new(move || pairs(nexsys::solve_with_preprocessors(&t, 1e-8, 60).map_err(text)?.1)) }
        }
        14 => {
            let x = (n - m) / k;
            let want = vec![("x".into(), x), ("y".into(), m - x), ("z".into(), plain(&[x]) / n)];
            Job { kind: "systems", label: format!("k * x + m = n; x + y = m; z * n = f(x), {what}"), want: Want::Values(want, 1e-4), run: Box::new(move || {
                let mut declared = HashMap::from([("y".to_string(), [2.0, f64::NEG_INFINITY, f64::INFINITY])]);
                pairs(nexsys::basic_solve("k * x + m = n\nx + y = m\nz * n = f(x)", &mut context(&consts, f), &mut declared, 1e-7, 60).map_err(text)?.1)
            }) }
        }
        15 => {
            let size = c.rng.us(1, 5);
            let rows: Vec<Vec<f64>> = (0..size).map(|i| (0..size).map(|j| eighths(c.rng.f(-1.0, 1.0)) + if i == j { 6.0 } else { 0.0 }).collect()).collect();
            let (inv, _) = vmon::invert_dense(&rows)?;
            let want = (0..size * size).map(|i| (i.to_string(), inv[i / size][i % size])).collect();
            Job { kind: "matrices", label: format!("inverse of {rows:?}"), want: Want::Values(want, 1e-9), run: Box::new(move || {
                let mut a: Matrix<f64> = Matrix::from_vec(size, rows.concat()).map_err(text)?;
                a.try_inplace_invert().map_err(text)?;
                Ok((0..size * size).map(|i| (i.to_string(), a[(i / size, i % size)])).collect())
            }) }
        }
        16 => {
            let size = c.rng.us(2, 5);
            Job { kind: "refusals", label: format!("inverse of a singular matrix of size {size}"), want: Want::Error, run: Box::new(move || {
                let mut a: Matrix<f64> = Matrix::from_vec(size, (0..size * size).map(|i| (1 + i % size) as f64).collect()).map_err(text)?;
                a.try_inplace_invert().map_err(text)?;
                Ok(one(a[(0, 0)]))
            }) }
        }
        17 | 18 => {
            let law = c.rng.below(5);
            let g = |x: f64| [1.0 / x, x, x * x, f64::NAN, f64::NAN][law];
            let want = match law {
                3 => Want::Anything,
                4 => Want::Error,
                _ => Want::Values(vec![("0".into(), k), ("1".into(), (k * g(m) + 9.0 * g(n)) / (g(m) + g(n))), ("2".into(), 9.0)], 1e-4),
            };
            Job { kind: if law >= 3 { "failing functions" } else { "networks" }, label: format!("network with law {law}, {what}"), want, run: Box::new(move || divider(law, [k, 9.0], [m, n])) }
        }
        19 => {
            let fail = c.rng.chance(0.4);
            let at = c.rng.us(0, 6);
            Job { kind: if fail { "failing functions" } else { "searches" }, label: format!("search x^2 = k^2, {what}, fails {fail} at {at}"),
                want: if fail { Want::Anything } else { Want::Values(one(k), 1e-4) }, run: Box::new(move || {
                let calls = std::cell::Cell::new(0);
                newton_raphson(|x| {
                    calls.set(calls.get() + 1);
                    if fail && calls.get() == at {
                        panic!("the caller's function falls over");
                    }
                    // Uses the library on the way
                    eval_str(&format!("({x}) * 1")).map(|x| x * x - k * k)
                }, k + 0.5, 1e-8, 60).map(one).map_err(text)
            }) }
        }
        20 => {
            let fail = c.rng.below(4);
            let at = c.rng.us(0, 8);
            Job { kind: if fail < 2 { "failing functions" } else { "searches" }, label: format!("search in two unknowns, {what}, fails {fail} at {at}"),
                want: if fail < 2 { Want::Anything } else { Want::Values(vec![("a".into(), (k + m) / 2.0), ("b".into(), (k - m) / 2.0)], 1e-4) }, run: Box::new(move || {
                let calls = std::cell::Cell::new(0);
                let g = |sign: f64, want: f64| {
                    let calls = &calls;
                    move |p: &HashMap<String, f64>| -> anyhow::Result<f64> {
                        calls.set(calls.get() + 1);
                        if calls.get() == at && fail == 0 {
                            panic!("the caller's function falls over");
                        }
                        if calls.get() == at && fail == 1 {
                            anyhow::bail!("the caller's function fails");
                        }
                        Ok(p["a"] + sign * p["b"] - want)
                    }
                };
                let mut guess = HashMap::from([("a".to_string(), 1.0), ("b".to_string(), 1.0)]);
                multivariate_newton_raphson(vec![g(1.0, k), g(-1.0, m)], &mut guess, 1e-7, 60).map_err(text)?;
                pairs(guess)
            }) }
        }
        _ => match c.rng.below(5) {
            0 => Job { kind: "failing functions", label: format!("a function of the caller's panics, {what}"), want: Want::Anything, run: Box::new(move || {
                let ctx = context(&consts, falls_over);
                eval_str_with_context("(k + (2 * f(m - 1))) - n", &ctx).map(one).map_err(text)
            }) },
            1 => Job { kind: "failing functions", label: format!("a compiled function panics, {what}"), want: Want::Anything, run: Box::new(move || {
                let mut ctx = context(&consts, falls_over);
                ctx.add_var_to_ctx("x", 1.0);
                compile_to_fn("f(x) + k", &ctx).map_err(text)?(2.0).map(one).map_err(text)
            }) },
            2 => {
                // There and back and round about, in base units per unit
                let known = *c.rng.pick(&[&[("m", 1.0), ("cm", 0.01), ("in", 0.0254), ("ft", 0.3048), ("km", 1000.0)], &[("s", 1.0), ("min", 60.0), ("hr", 3600.0), ("s", 1.0), ("min", 60.0)]]);
                let mut from = *c.rng.pick(known);
                let steps: Vec<_> = (0..c.rng.us(1, 6)).map(|_| {
                    let to = *c.rng.pick(known);
                    let step = if c.rng.chance(0.5) { (from, to) } else { (to, from) };
                    from = to;
                    (step.0.0, step.1.0, step.0.1 / step.1.1)
                }).collect();
                // Every factor is written relative to what it should be
                let want = steps.iter().map(|s| (format!("{}->{}", s.0, s.1), 1.0)).collect();
                let label = format!("{steps:?}");
                Job { kind: "conversions", label, want: Want::Values(want, 1e-3), run: Box::new(move || {
                    steps.iter().map(|(a, b, f)| Ok((format!("{a}->{b}"), nexsys::units::convert(a, b).map_err(text)? / f))).collect()
                }) }
            }
            3 => Job { kind: "refusals", label: "ft->s".into(), want: Want::Error, run: Box::new(move || nexsys::units::convert("ft", "s").map(one).map_err(text)) },
            _ => Job { kind: "C interface", label: format!("C: k * x + m = n with {what}"), want: Want::Values(vec![("x".into(), (n - m) / k)], 1e-5), run: Box::new(move || unsafe {
                let ctx = geqslib::ffi::new_default_context_hash_map();
                for (k, v) in &consts {
                    let s = CString::new(k.as_str()).map_err(text)?;
                    geqslib::ffi::add_const_to_ctx(ctx, s.as_ptr(), *v);
                }
                let eq = CString::new("k * x + m = n").map_err(text)?;
                let p = geqslib::ffi::solve_equation(eq.as_ptr(), ctx, 1.0, f64::NEG_INFINITY, f64::INFINITY, 1e-7, 60);
                geqslib::ffi::free_context_hash_map(ctx);
                if p.is_null() {
                    return Err("null".into());
                }
                let t = CStr::from_ptr(p).to_string_lossy().into_owned();
                geqslib::ffi::free_solution_string(p as *mut _);
                let (k, v) = t.split_once('=').ok_or("no value")?;
                Ok(vec![(k.to_string(), v.parse::<f64>().map_err(text)?)])
            }) },
        },
    })
}
