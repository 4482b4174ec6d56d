//! N04: models and solutions survive being written down, and the tool leaves the model alone.
use crate::laws::{run, tolerance};
use crate::net::{answer, answer_from_json, Answer, Net};
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::NodalAnalysisStudyBuilder;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use vmon::{cut, Ctx};

fn near(a: &Answer, b: &Answer, tol: f64) -> bool {
    let same = |x: &Vec<f64>, y: Option<&Vec<f64>>| y.is_some_and(|y| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p - q).abs() <= tol));
    a.nodes.len() == b.nodes.len() && a.elems.len() == b.elems.len()
        && a.nodes.iter().all(|(k, v)| same(v, b.nodes.get(k))) && a.elems.iter().all(|(k, v)| same(v, b.elems.get(k)))
}

/// Equal, except that whole numbers may be written either way, and that reading a number may
/// move its last digit.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_f64(), y.as_f64()) {
            (Some(x), Some(y)) => (x - y).abs() <= 1e-15 * x.abs(),
            _ => false,
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}

pub fn case(c: &mut Ctx) {
    let mut net = Net::random(c, 1);
    // Numbers of every size and precision
    for e in &mut net.elems {
        if c.rng.chance(0.3) {
            e.gain[0] *= c.rng.f(0.9, 1.1);
        }
    }
    if c.rng.chance(0.3) {
        return tool(c, &net);
    }
    if c.rng.chance(0.3) {
        return draft(c);
    }
    let what = net.json().to_string();
    c.seen(&what);
    c.sample("model", || what.clone());
    let mut side = Ctx::detached(c.rng.clone());
    let n2 = net.clone();
    // Saving in the middle of building, too
    let saved = cut(move || {
        let mut text = String::from("something else");
        let b = n2.builder(&mut side, None)?.save_model(&mut text)?;
        Ok::<_, anyhow::Error>((text, b))
    });
    let (text, built) = match saved {
        Ok(Ok(x)) => x,
        r => return c.fail("save", format!("{what}: {:?}", r.map(|r| r.map(|r| r.0).map_err(|e| e.to_string())))),
    };
    let Ok(v) = serde_json::from_str::<Value>(&text) else { return c.fail("not-json", format!("{what}: {text}")) };
    // Metadata aside, the text says what the model is
    let strip = |v: &Value| {
        let mut v = v.clone();
        if let Some(o) = v.get_mut("configuration").and_then(|o| o.as_object_mut()) {
            for w in o.values_mut() {
                w["metadata"] = Value::Null;
            }
        }
        v
    };
    c.check(same(&strip(&v), &strip(&net.json())), "text", || format!("{what}\nwas saved as {text}"));
    let t = text.clone();
    let Ok(Ok(model)) = cut(move || serde_json::from_str::<NodalAnalysisModel>(&t)) else { return c.fail("load", text) };
    let t = text.clone();
    match cut(move || t.parse::<NodalAnalysisModel>()) {
        Ok(Ok(m)) => {
            c.check(m == model, "parse", || format!("{text}\n{m:?}\n{model:?}"));
        }
        r => return c.fail("parse", format!("{text}\n{r:?}")),
    }
    // And again, from what was loaded
    let m2 = model.clone();
    let again = cut(move || {
        let mut t = String::new();
        NodalAnalysisStudyBuilder::from_model_with_default_config(m2).save_model(&mut t).map(|_| t).map_err(|e| e.to_string())
    });
    let equal = matches!(&again, Ok(Ok(t)) if serde_json::from_str::<Value>(t).is_ok_and(|w| same(&w, &v)));
    c.check(equal, "save-again", || format!("{text}\nbut then {again:?}"));
    c.count("round trips");
    let margin = 1e-7;
    let a = cut(move || built.run_study(margin, 100).map_err(|e| e.to_string()));
    let b = cut(move || NodalAnalysisStudyBuilder::from_model_with_default_config(model).run_study(margin, 100).map_err(|e| e.to_string()));
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            let (Some(a), Some(b)) = (answer(&a), answer(&b)) else { return c.fail("result", format!("{text}: {a:?}, {b:?}")) };
            c.check(near(&a, &b, tolerance(margin)), "results-differ", || format!("{text}\n{a:?} as it was built, {b:?} as it was loaded"));
            c.count("solved");
        }
        (a, b) => c.fail("not-solved", format!("{text}\n{a:?} as it was built, {b:?} as it was loaded")),
    }
}

/// Any number: whole, tiny, huge, negative, nothing.
fn number(c: &mut Ctx) -> f64 {
    match c.rng.below(7) {
        0 => 0.0,
        1 => c.rng.range(-20, 20) as f64,
        2 => c.rng.f(-1.0, 1.0) * 10f64.powi(c.rng.range(-300, 300) as i32),
        3 => c.rng.range(-(1 << 50), 1 << 50) as f64,
        _ => c.rng.f(-100.0, 100.0),
    }
}

fn numbers(c: &mut Ctx) -> Vec<f64> {
    let n = *c.rng.pick(&[0, 1, 1, 1, 2, 3, 7]);
    (0..n).map(|_| number(c)).collect()
}

const WORDS: [&str; 10] = ["resistor", "voltage_source", "conductor", "my thing", "", "\"quoted\"", "é\n\t\\", "gain", "null", "{}"];

/// A model that is being worked on, and need not have a solution yet, nor known elements.
fn draft(c: &mut Ctx) {
    let study = *c.rng.pick(&["dc_circuit", "heat_transfer"]);
    let mut b = match NodalAnalysisStudyBuilder::new(study.into(), None) {
        Ok(b) => b,
        Err(e) => return c.fail("new", format!("{study}: {e}")),
    };
    let (mut nodes, mut configuration, mut elements) = (0, serde_json::Map::new(), vec![]);
    let mut done = vec![];
    for _ in 0..c.rng.us(0, 9) {
        match c.rng.below(3) {
            0 => {
                let n = c.rng.us(0, 4);
                b = b.add_nodes(n);
                nodes += n;
                done.push(format!("add_nodes({n})"));
            }
            1 => {
                let (i, p, locked) = (c.rng.below(nodes + 3), numbers(c), c.rng.chance(0.5));
                let m: Option<BTreeMap<String, f64>> = c.rng.chance(0.5).then(|| (0..c.rng.below(3)).map(|_| (c.rng.pick(&WORDS).to_string(), number(c))).collect());
                done.push(format!("configure_node({i}, {p:?}, {locked}, {m:?})"));
                configuration.insert(i.to_string(), json!({ "potential": p, "is_locked": locked, "metadata": m }));
                b = b.configure_node(i, p, locked, m.map(|m| m.into_iter().collect()));
            }
            _ => {
                let (name, i, o, g) = (*c.rng.pick(&WORDS), c.rng.below(nodes + 1), c.rng.below(nodes + 1), numbers(c));
                done.push(format!("add_element({name:?}, {i}, {o}, {g:?})"));
                let spare = b.clone();
                b = match b.add_element(name, i, o, g.clone()) {
                    Ok(b) if i < nodes && o < nodes => {
                        elements.push(json!({ "element_type": name, "input": i, "output": o, "gain": g }));
                        b
                    }
                    Err(_) if i >= nodes || o >= nodes => spare,
                    r => return c.fail("draft-element", format!("{study}: {done:?}: accepted: {}", r.is_ok())),
                };
            }
        }
    }
    let want = json!({ "model_type": study, "nodes": nodes, "configuration": configuration, "elements": elements });
    let mut text = String::from("something else");
    let b = match b.save_model(&mut text) {
        Ok(b) => b,
        Err(e) => return c.fail("draft-save", format!("{study}: {done:?}: {e}")),
    };
    c.seen(&text);
    c.count("drafts");
    if elements.iter().any(|e| e["gain"] == json!([])) {
        c.count("drafts with elements without values");
    }
    let got = serde_json::from_str::<Value>(&text).ok();
    c.check(got.as_ref().is_some_and(|v| same(&whole(v), &whole(&want))), "draft-text", || format!("{study}: {done:?} was saved as {text}"));
    let parsed = text.parse::<NodalAnalysisModel>();
    let loaded = serde_json::from_str::<NodalAnalysisModel>(&text);
    let again = |m: NodalAnalysisModel| {
        let mut t = String::new();
        NodalAnalysisStudyBuilder::from_model_with_default_config(m).save_model(&mut t).ok()?;
        serde_json::from_str::<Value>(&t).ok()
    };
    match (parsed, loaded) {
        (Ok(p), Ok(l)) => {
            c.check(p == l, "draft-loads", || format!("{text}\n{p:?}\n{l:?}"));
            c.check(again(p).is_some_and(|v| same(&whole(&v), &whole(&want))), "draft-again", || format!("{study}: {done:?}, saved as {text}, is another model when it is loaded"));
        }
        (p, l) => c.fail("draft-loads", format!("{study}: {done:?} was saved as {text}, but loads as {p:?}, {l:?}")),
    }
    drop(b);
}

/// A model with everything it may leave out.
fn whole(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.get_mut("configuration").and_then(|o| o.as_object_mut()) {
        for w in o.values_mut().filter_map(|w| w.as_object_mut()) {
            w.entry("metadata").or_insert(Value::Null);
        }
    }
    v
}

fn dir_of(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fs::read_dir(d).into_iter().flatten().flatten()
        .map(|e| (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_else(|_| format!("{:?}", dir_of(&e.path())).into_bytes()))).collect()
}

fn tool(c: &mut Ctx, net: &Net) {
    let Ok(exe) = std::env::var("VMON_NEAPOLITAN") else { return c.fail("no-tool", "the tool was not built".into()) };
    let d = PathBuf::from(format!("{}/tool-{}-{}", c.scratch, std::process::id(), c.case));
    fs::create_dir_all(&d).expect("scratch directory");
    with_tool(c, net, &exe, &d);
    let _ = fs::remove_dir_all(&d);
}

fn with_tool(c: &mut Ctx, net: &Net, exe: &str, d: &Path) {
    let file = *c.rng.pick(&["model.json", "model.json", "model", "a.b.json", "with space.json", "model.soln.json", "m.txt", "é.json", "soln.json"]);
    let mut v = net.json();
    if c.rng.chance(0.4) {
        v["$schema"] = json!("./neapolitan_model_schema.json");
    }
    let mut text = if c.rng.chance(0.5) { v.to_string() } else { serde_json::to_string_pretty(&v).unwrap_or_default() };
    let mut fine = true;
    if c.rng.chance(0.15) {
        fine = false;
        text = match c.rng.below(4) {
            0 => text[..text.len() / 2].chars().collect(),
            1 => text.replace("\"nodes\"", "\"node\""),
            2 => text.replace("dc_circuit", "ac_circuit").replace("heat_transfer", "cold_transfer"),
            _ => String::new(),
        };
        c.count("bad models");
    }
    fs::write(d.join(file), &text).expect("scratch file");
    let mut args = vec![file.to_string()];
    let mut margin = 1e-4;
    let mut opts: Vec<Vec<String>> = vec![];
    if fine && c.rng.chance(0.15) {
        // What the user calls close enough may be far, and the steps few
        let (p, i) = (*c.rng.pick(&["1000", "1e9", "5", "0.5", "0.02"]), c.rng.us(1, 3));
        margin = p.parse().unwrap_or(margin);
        let mut solved = vec![];
        for m in [0.5 * margin, margin, 2.0 * margin] {
            let net = net.clone();
            solved.push(cut(move || net.model().map(|n| NodalAnalysisStudyBuilder::from_model_with_default_config(n).run_study(m, i).is_ok())));
        }
        if solved[0] != solved[1] || solved[1] != solved[2] {
            return c.count("narrow");
        }
        fine = solved[1] == Ok(Some(true));
        c.count(if fine { "loose precision in few steps" } else { "few steps do not do" });
        opts.push(vec![c.rng.pick(&["-p", "--precision"]).to_string(), p.to_string()]);
        opts.push(vec![c.rng.pick(&["-i", "--iterations"]).to_string(), i.to_string()]);
    } else if c.rng.chance(0.4) {
        let bad = c.rng.chance(0.2);
        let p = if bad { *c.rng.pick(&["fine", "", "1,5", "-0.001", "0", "-2"]) } else { *c.rng.pick(&["1e-6", "0.001", "1E-3"]) };
        // A precision that nobody can reach is no misuse, but has no solution
        let hopeless = p.parse::<f64>().is_ok_and(|p| p <= 0.0);
        if hopeless {
            c.count("hopeless precision");
            if !matches!(run(net, c, p.parse().unwrap_or(0.0)), Ok(Err(_))) {
                return c.count("hopeless precision reached");
            }
        }
        fine &= !bad;
        margin = p.parse().unwrap_or(margin);
        opts.push(vec![c.rng.pick(&["-p", "--precision"]).to_string(), p.to_string()]);
    }
    if opts.len() < 2 && c.rng.chance(0.4) {
        let bad = c.rng.chance(0.2);
        let p = if bad { *c.rng.pick(&["many", "-3", "1.5", "", "0"]) } else { *c.rng.pick(&["50", "1000"]) };
        if p == "0" {
            c.count("no steps at all");
            let net = net.clone();
            let solved = cut(move || net.model().map(|m| NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(1e-4, 0).is_ok()));
            if solved != Ok(Some(false)) {
                return c.count("solved without a step");
            }
        }
        fine &= !bad;
        opts.push(vec![c.rng.pick(&["-i", "--iterations"]).to_string(), p.to_string()]);
    }
    c.rng.shuffle(&mut opts);
    if fine && c.rng.chance(0.05) {
        fine = false;
        opts.push(vec![c.rng.pick(&["-p", "-i", "--precision", "--iterations"]).to_string()]);
    }
    args.extend(opts.concat());
    if c.rng.chance(0.05) {
        fine = false;
        args[0] = c.rng.pick(&["nothing.json", ".", ""]).to_string();
        c.count("missing files");
    }
    if fine && c.rng.chance(0.03) {
        args.clear();
        fine = false;
    }
    let out_name = Path::new(file).with_extension("soln.json").to_string_lossy().into_owned();
    if c.rng.chance(0.3) {
        fs::write(d.join(&out_name), "an older solution").expect("scratch file");
    } else if c.rng.chance(0.05) {
        // The solution cannot be put there
        fs::create_dir_all(d.join(&out_name).join("in the way")).expect("scratch directory");
        fine = false;
        c.count("nowhere to write to");
    }
    let before = dir_of(d);
    let (code, stdout, stderr) = match vmon::run_tool(Command::new(exe).args(&args).current_dir(d)) {
        Ok(o) => o,
        Err(e) => return c.fail("no-end", format!("neapolitan {args:?} with {text}: {e}")),
    };
    let after = dir_of(d);
    let what = format!("neapolitan {args:?} with {text}");
    let said = stdout + &stderr;
    c.count("runs of the tool");
    c.seen(&what);
    c.sample("tool", || what.clone());
    c.check(!said.contains("panicked"), "panic", || format!("{what}: {said}"));
    c.check(code == Some(i32::from(!fine)), "exit-code", || format!("{what}: {:?}, {said}", code));
    let (mut x, mut y) = (before.clone(), after.clone());
    let (old, new) = (x.remove(&out_name), y.remove(&out_name));
    c.check(x == y, "other-files", || format!("{what}: had {:?}, has {:?}, or their contents changed", before.keys(), after.keys()));
    if !fine {
        c.check(old == new, "written", || format!("{what}: wrote {out_name}"));
        return;
    }
    let text = new.filter(|n| Some(n) != old.as_ref()).map(|n| String::from_utf8_lossy(&n).into_owned());
    let got = text.as_ref().and_then(|t| serde_json::from_str::<Value>(t).ok()).and_then(|v| answer_from_json(&v));
    let Some(got) = got else { return c.fail("solution-file", format!("{what}: {out_name} is {text:?}, {said}")) };
    let broken = net.broken(&got, margin);
    c.check(broken.is_none(), "laws", || format!("{what}: {got:?}: {broken:?}"));
    if margin > 0.01 {
        return c.count("solution files");
    }
    if let Ok(Ok(want)) = run(net, c, margin) {
        c.check(near(&got, &want, 2.0 * tolerance(margin)), "differs", || format!("{what}: {got:?}, but the library finds {want:?}"));
    }
    c.count("solution files");
}
