//! N03: models that make no sense are refused, and nothing makes the engine panic.
use crate::laws::run;
use crate::net::{answer, Elem, Kind, Net};
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::{NodalAnalysisStudyBuilder, NodalAnalysisStudyResult};
use serde_json::json;
use vmon::{cut, Ctx};

fn run_json(text: &str, margin: f64, limit: usize) -> Result<Result<NodalAnalysisStudyResult, String>, String> {
    let t = text.to_string();
    cut(move || {
        let m: NodalAnalysisModel = serde_json::from_str(&t).map_err(|e| e.to_string())?;
        NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(margin, limit).map_err(|e| e.to_string())
    })
}

/// Makes the model senseless, and says how.
fn spoil(c: &mut Ctx, net: &mut Net) -> &'static str {
    let far = net.nodes + *c.rng.pick(&[0, 0, 1, 7, 1 << 40]);
    let i = c.rng.below(net.elems.len());
    match c.rng.below(9) {
        0 => {
            net.elems[i].input = far;
            "element from a node that is not there"
        }
        1 => {
            net.elems[i].output = far;
            "element to a node that is not there"
        }
        2 => {
            net.elems[i].name = *c.rng.pick(&["capacitor", "", "Resistor", "voltage_source ", if net.study == "dc_circuit" { "conductor" } else { "resistor" }]);
            "unknown element"
        }
        3 => {
            let n = if net.elems[i].name == "conductor" { *c.rng.pick(&[0, 3, 4]) } else { *c.rng.pick(&[0, 2, 3]) };
            net.elems[i].gain = vec![1.5; n];
            "wrong number of gains"
        }
        4 => {
            let k = *c.rng.pick(&net.locked.keys().copied().collect::<Vec<_>>());
            net.locked.insert(k, vec![2.0; *c.rng.pick(&[0, 2, 3])]);
            "wrong number of potentials"
        }
        5 => {
            if c.rng.chance(0.5) { &mut net.locked } else { &mut net.hints }.insert(far, vec![1.0]);
            "configuration of a node that is not there"
        }
        6 => {
            net.study = *c.rng.pick(&["", "dc_circuits", "hydraulics", "DC_CIRCUIT"]);
            "unknown study"
        }
        7 => {
            // Both ends of a source are held already
            let a = *net.locked.keys().next().unwrap_or(&0);
            let lifts: Vec<&Elem> = net.elems.iter().filter(|e| e.kind == Kind::Lifts).collect();
            let (x, y) = match lifts.first() {
                Some(e) if c.rng.chance(0.7) => if c.rng.chance(0.5) { (e.input, e.output) } else { (e.output, e.input) },
                _ => match net.locked.keys().nth(1) {
                    Some(b) => (a, *b),
                    None => (a, a),
                },
            };
            let mut e = net.elem(c, Kind::Lifts, x, y);
            e.gain = vec![*c.rng.pick(&[0.0, 1.0, 5.0])];
            let at = c.rng.below(net.elems.len() + 1);
            net.elems.insert(at, e);
            "too many sources"
        }
        _ => {
            let x = c.rng.below(net.nodes);
            let e = net.elem(c, Kind::Lifts, x, x);
            net.elems.push(e);
            "source from a node to itself"
        }
    }
}

/// Long chains of sources, in a process of their own. Chains of more than some thousands are a known finding.
fn chain(c: &mut Ctx) {
    let Ok(exe) = std::env::var("VMON_NEAPOLITAN") else { return c.fail("no-tool", "the tool was not built".into()) };
    let (n, sig) = if c.case == 0 { (600, "chain") } else { (12_000, "chain-of-12000-sources") };
    let mut elements: Vec<_> = (0..n - 1).map(|i| json!({"element_type": "voltage_source", "input": i, "output": i + 1, "gain": [0.5]})).collect();
    elements.push(json!({"element_type": "resistor", "input": n - 1, "output": 0, "gain": [5.0]}));
    let model = json!({"model_type": "dc_circuit", "nodes": n, "elements": elements,
        "configuration": {"0": {"potential": [1.0], "is_locked": true, "metadata": null}}});
    let d = std::path::PathBuf::from(format!("{}/chain-{}-{n}", c.scratch, std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    std::fs::write(d.join("chain.json"), model.to_string()).expect("scratch file");
    let mut child = std::process::Command::new(exe).arg("chain.json").current_dir(&d)
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().expect("the tool runs");
    let begin = std::time::Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            // It takes its time: it did not overflow
            None if begin.elapsed().as_secs() >= 15 => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    };
    c.count("long chains");
    if let Some(s) = status {
        c.check(s.code().is_some(), sig, || format!("a chain of {} sources ends the process: {s}", n - 1));
        if s.success() {
            let text = std::fs::read_to_string(d.join("chain.soln.json")).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            let last = v["nodes"][(n - 1).to_string()][0].as_f64().unwrap_or(f64::NAN);
            let want = 1.0 + (n - 1) as f64 * 0.5;
            c.check((last - want).abs() < 1e-6 * want, sig, || format!("the end of a chain of {} sources is at {last}, not {want}", n - 1));
        }
    }
    let _ = std::fs::remove_dir_all(&d);
}

/// The builder refuses an element between nodes that are not there as soon as it is added, and takes every other.
fn builder(c: &mut Ctx) {
    let study = *c.rng.pick(&["dc_circuit", "heat_transfer"]);
    let name = *c.rng.pick(if study == "dc_circuit" { &["resistor", "voltage_source", "current_source"] } else { &["conductor", "temperature_source", "heat_source"] });
    let nodes = c.rng.us(0, 6);
    let far = |c: &mut Ctx| nodes + *c.rng.pick(&[0, 0, 1, 5, 1 << 20, usize::MAX - 10]);
    let near = |c: &mut Ctx| if nodes == 0 { usize::MAX } else { c.rng.below(nodes) };
    let (from, to) = (c.rng.chance(0.5), c.rng.chance(0.5));
    let input = if from { near(c) } else { far(c) };
    let output = if to { near(c) } else { far(c) };
    let good = input < nodes && output < nodes;
    let r = cut(move || {
        let b = NodalAnalysisStudyBuilder::new(study.to_string(), None).map_err(|e| e.to_string())?.add_nodes(nodes);
        b.add_element(name, input, output, vec![1.0]).map(|_| ()).map_err(|e| e.to_string())
    });
    c.count(if good { "elements taken" } else { "elements refused" });
    c.seen(&(study, name, nodes, input, output));
    let ok = if good { matches!(r, Ok(Ok(()))) } else { matches!(r, Ok(Err(_))) };
    c.check(ok, "add-element", || format!("{name} from {input} to {output} among {nodes} nodes: {r:?}"));
}

pub fn case(c: &mut Ctx) {
    if c.case < 2 {
        return chain(c);
    }
    if c.rng.chance(0.05) {
        return builder(c);
    }
    let mut net = Net::random(c, 1);
    let what = c.rng.below(10);
    if net.elems.is_empty() && what < 7 {
        return c.count("skipped");
    }
    match what {
        0..=4 => {
            let what = spoil(c, &mut net);
            c.count(what);
            c.seen(&(what, net.elems.len(), net.nodes));
            let text = net.json().to_string();
            c.sample(what, || text.clone());
            let (margin, limit) = (*c.rng.pick(&[1e-4, 1e3]), *c.rng.pick(&[0, 1, 100]));
            let r = run_json(&text, margin, limit);
            c.check(matches!(&r, Ok(Err(_))), "accepted", || format!("{what}: {text}: {r:?}"));
            // The same through the builder
            let r = run(&net, c, 1e-4);
            c.check(matches!(&r, Ok(Err(_))), "accepted-by-builder", || format!("{what}: {text}: {r:?}"));
        }
        5..=6 => {
            // Text that is not a model
            let mut v = net.json();
            let what = *c.rng.pick(&["field removed", "wrong type", "cut short", "garbage", "bad key"]);
            let text = match what {
                "field removed" => {
                    let (at, field) = *c.rng.pick(&[("", "nodes"), ("", "elements"), ("", "configuration"), ("", "model_type"), ("/elements/0", "gain"), ("/elements/0", "input"),
                        ("/elements/0", "output"), ("/elements/0", "element_type")]);
                    if let Some(o) = v.pointer_mut(at).and_then(|o| o.as_object_mut()) {
                        o.remove(field);
                    }
                    v.to_string()
                }
                "wrong type" => {
                    let at = *c.rng.pick(&["/nodes", "/elements", "/configuration", "/model_type", "/elements/0", "/elements/0/gain", "/elements/0/input", "/elements/0/gain/0", "/elements/0/element_type"]);
                    let w = match at {
                        "/nodes" | "/elements/0/input" => c.rng.pick(&[json!(-1), json!(1.5), json!("1"), json!(null), json!([1])]).clone(),
                        "/model_type" | "/elements/0/element_type" => c.rng.pick(&[json!(-1), json!(null), json!([1]), json!({"a": 1})]).clone(),
                        _ => c.rng.pick(&[json!(-1), json!("1"), json!(null), json!(true)]).clone(),
                    };
                    if let Some(o) = v.pointer_mut(at) {
                        if at == "/elements/0/gain/0" && w.is_number() {
                            return;
                        }
                        *o = w;
                    }
                    v.to_string()
                }
                "cut short" => {
                    let t = v.to_string();
                    let n = c.rng.below(t.len());
                    t.chars().take(n).collect()
                }
                "garbage" => v.to_string() + *c.rng.pick(&["}", "]", "x", ", 1", "{}"]),
                _ => {
                    let k = c.rng.pick(&["-1", "x", "1.5", ""]).to_string();
                    v["configuration"][k] = json!({"potential": [1.0], "is_locked": true, "metadata": null});
                    v.to_string()
                }
            };
            c.count("texts");
            c.count(what);
            c.seen(&text);
            let r = run_json(&text, 1e-4, 50);
            c.check(matches!(&r, Ok(Err(_))), "text-accepted", || format!("{what}: {text}: {r:?}"));
        }
        _ => {
            // Strange, but possible: whatever is answered obeys the laws
            let mut what = vec![];
            for _ in 0..c.rng.us(1, 3) {
                let i = if net.elems.is_empty() { 0 } else { c.rng.below(net.elems.len()) };
                what.push(match c.rng.below(9) {
                    0 => {
                        net.nodes += 1;
                        "a node without elements"
                    }
                    // Not where it would leave thousands of unknowns, and a matrix that no memory holds
                    1 if net.nodes < 1000 => {
                        net.locked.clear();
                        "nothing is fixed"
                    }
                    2 if !net.elems.is_empty() && net.elems[i].kind == Kind::Conducts => {
                        net.elems[i].gain = vec![*c.rng.pick(&[0.0, -2.0, 1e12, 1e-12, 1e300, -0.0])];
                        "strange conductors"
                    }
                    3 if !net.elems.is_empty() && net.elems[i].kind != Kind::Conducts => {
                        net.elems[i].gain = vec![*c.rng.pick(&[0.0, 1e15, -1e300, 1e-300])];
                        "strange sources"
                    }
                    4 => {
                        let x = c.rng.below(net.nodes);
                        let k = if c.rng.chance(0.5) { Kind::Conducts } else { Kind::Pumps };
                        let e = net.elem(c, k, x, x);
                        net.elems.push(e);
                        "elements from a node to itself"
                    }
                    5 => {
                        net.elems.clear();
                        "no elements"
                    }
                    6 => {
                        for i in 0..net.nodes {
                            net.locked.entry(i).or_insert(vec![2.5]);
                        }
                        net.elems.retain(|e| e.kind != Kind::Lifts);
                        net.hints.clear();
                        "everything is fixed"
                    }
                    7 if !net.elems.is_empty() => {
                        net.elems.remove(i);
                        "an element removed"
                    }
                    _ => {
                        net.nodes += 2;
                        let e = net.elem(c, Kind::Conducts, net.nodes - 1, net.nodes - 2);
                        net.elems.push(e);
                        "an island"
                    }
                });
            }
            net.hints.retain(|k, _| !net.locked.contains_key(k));
            let margin = *c.rng.pick(&[1e-4, 1e-4, 1e-6, 0.0, -1.0, 1e300]);
            let limit = *c.rng.pick(&[0, 1, 100, 100]);
            let text = net.json().to_string();
            for w in &what {
                c.count(w);
            }
            c.seen(&text);
            c.sample(what[0], || text.clone());
            match run_json(&text, margin, limit) {
                Err(m) => c.fail("panic", format!("{what:?}: {text} within {margin} in {limit}: {m}")),
                Ok(Err(_)) => c.count("strange, refused"),
                Ok(Ok(r)) => {
                    c.count("strange, answered");
                    let Some(a) = answer(&r) else {
                        return c.fail("not-finite", format!("{what:?}: {text} within {margin} in {limit}: {r:?}"));
                    };
                    if margin > 0.0 && margin < 1.0 {
                        let broken = net.broken(&a, margin);
                        let sig = broken.as_ref().map_or("", |b| b.0);
                        c.check(broken.is_none(), sig, || format!("{what:?}: {text} within {margin} in {limit}: {a:?}: {broken:?}"));
                    }
                }
            }
        }
    }
}
