//! N05: the engine serves elements of the user's own, in any number of dimensions, and the parts
//! it is made of do what they are asked to.
use crate::laws::tolerance;
use crate::net::{answer, Elem, Kind, Net};
use neapolitan::dc_circuits::{current_source, resistor, voltage_source};
use neapolitan::flux_formulas::{constant_flux, normal_flux};
use neapolitan::heat_transfer::{conductor, convection_interface, heat_flux, temperature_delta};
use neapolitan::modelling::element::ElementConstructor;
use neapolitan::modelling::{GenericElement, GenericNode};
use neapolitan::{get_node_potential, is_locked, lock_node, set_node_potential};
use neapolitan::{Matrix, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::{Rc, Weak};
use vmon::{cut, Ctx};

type Node = Rc<RefCell<GenericNode>>;
type End = Weak<RefCell<GenericNode>>;

fn deltas(i: Node, o: Node) -> anyhow::Result<Vec<f64>> {
    let i: Vec<f64> = get_node_potential(&Rc::downgrade(&i))?.into();
    let o: Vec<f64> = get_node_potential(&Rc::downgrade(&o))?.into();
    Ok(i.iter().zip(&o).map(|(a, b)| a - b).collect())
}

/// Admittance: current = y * voltage, as complex numbers
fn complex(i: Node, o: Node, y: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    let (d, y) = (deltas(i, o)?, [y[(0, 0)], y[(1, 0)]]);
    Ok(Matrix::from_col_vec(vec![y[0] * d[0] - y[1] * d[1], y[0] * d[1] + y[1] * d[0]]))
}

fn cubic(i: Node, o: Node, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(deltas(i, o)?.iter().map(|d| g[(0, 0)] * d + g[(1, 0)] * d * d * d).collect()))
}

fn soft(i: Node, o: Node, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(deltas(i, o)?.iter().map(|d| g[(0, 0)] * d + g[(1, 0)] * d.tanh()).collect()))
}

fn law(e: &Elem, d: &[f64]) -> Vec<f64> {
    let g = &e.gain;
    match e.name {
        "admittance" => vec![g[0] * d[0] - g[1] * d[1], g[0] * d[1] + g[1] * d[0]],
        "cubic" => d.iter().map(|d| g[0] * d + g[1] * d * d * d).collect(),
        "soft" => d.iter().map(|d| g[0] * d + g[1] * d.tanh()).collect(),
        _ => d.iter().map(|d| e.conductance() * d).collect(),
    }
}

fn admittance(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, complex, false, true, true)
}
fn cubic_element(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, cubic, false, true, true)
}
fn soft_element(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, soft, false, true, true)
}
fn reluctant(_: End, _: End, _: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    anyhow::bail!("not today")
}
fn failing_flux(_: Node, _: Node, _: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    anyhow::bail!("no flux today")
}
fn nan_flux(_: Node, _: Node, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(vec![f64::NAN; g.get_rows()]))
}
fn faulty(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, failing_flux, false, true, true)
}
fn undefined(i: End, o: End, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, i, o, nan_flux, false, true, true)
}

const OF_DC: [(&str, ElementConstructor); 3] = [("resistor", resistor), ("voltage_source", voltage_source), ("current_source", current_source)];
const OF_HEAT: [(&str, ElementConstructor); 4] =
    [("conductor", conductor), ("convection_interface", convection_interface), ("temperature_delta", temperature_delta), ("heat_flux", heat_flux)];
const OWN: [(&str, ElementConstructor); 6] =
    [("admittance", admittance), ("cubic", cubic_element), ("soft", soft_element), ("reluctant", reluctant), ("faulty", faulty), ("undefined", undefined)];

fn all_of(study: &str) -> Vec<(&'static str, ElementConstructor)> {
    let mut v = if study == "dc_circuit" { OF_DC.to_vec() } else { OF_HEAT.to_vec() };
    v.extend(OWN);
    v
}

fn configurator(c: &mut Ctx, dim: usize, study: &str) -> anyhow::Result<NodalAnalysisStudyConfigurator> {
    let mut all = all_of(study);
    c.rng.shuffle(&mut all);
    all.into_iter().try_fold(NodalAnalysisStudyConfigurator::new(dim), |k, (name, make)| k.add_element_type(name, make))
}

type Configs = HashMap<String, NodalAnalysisStudyConfigurator>;

fn configs(c: &mut Ctx, net: &Net) -> anyhow::Result<Configs> {
    let mut m = HashMap::from([(net.study.to_string(), configurator(c, net.dim, net.study)?)]);
    if c.rng.chance(0.4) {
        // Another study, of other dimensions, where the same names mean something else
        let mut other = NodalAnalysisStudyConfigurator::new(net.dim + 1);
        for (name, _) in all_of(net.study) {
            other = other.add_element_type(name, reluctant)?;
        }
        m.insert("another".to_string(), other);
    }
    Ok(m)
}

pub fn case(c: &mut Ctx) {
    match c.rng.below(10) {
        0..=2 => dimensions(c),
        3..=5 => own(c),
        6..=7 => refused(c),
        _ => parts(c),
    }
}

fn solve(c: &mut Ctx, net: &Net, margin: f64) -> Result<Result<neapolitan::NodalAnalysisStudyResult, String>, String> {
    let mut side = Ctx::detached(c.rng.clone());
    c.rng.next();
    let n = net.clone();
    cut(move || {
        let conf = configs(&mut side, &n).map_err(|e| e.to_string())?;
        n.builder(&mut side, Some(conf)).and_then(|b| b.run_study(margin, 100)).map_err(|e| e.to_string())
    })
}

/// The elements the library has, in a study of another dimension.
fn dimensions(c: &mut Ctx) {
    let dim = *c.rng.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6, 7]);
    let net = Net::random(c, dim);
    let Some((pots, flux)) = net.solution() else { return c.count("skipped") };
    if pots.iter().chain(&flux).flatten().any(|v| v.abs() > 1e4) {
        return c.count("skipped");
    }
    let margin: f64 = *c.rng.pick(&[1e-4, 1e-6, 1e-8]);
    let what = format!("{dim} dimensions: {}", net.json());
    c.count("components");
    c.seen(&(dim, net.elems.iter().map(|e| (e.name, e.input, e.output)).collect::<Vec<_>>()));
    c.sample("components", || what.clone());
    let a = match solve(c, &net, margin) {
        Ok(Ok(r)) => answer(&r),
        r => return c.fail("not-solved", format!("{what}: {r:?}, but {pots:?} solves it")),
    };
    let Some(a) = a else { return c.fail("result", what) };
    let broken = net.broken(&a, margin);
    let sig = broken.as_ref().map_or("", |b| b.0);
    if !c.check(broken.is_none(), sig, || format!("{what}: {a:?}: {broken:?}")) {
        return;
    }
    let tol = tolerance(margin);
    for (i, want) in pots.iter().enumerate() {
        let got = &a.nodes[&i];
        c.check(got.iter().zip(want).all(|(g, w)| (g - w).abs() <= tol), "potential", || format!("{what}: node {i} is at {got:?}, not {want:?}"));
    }
    if dim > 1 {
        c.count("more than one dimension");
    }
}

/// Elements of the user's own.
fn own(c: &mut Ctx) {
    let name = *c.rng.pick(&["admittance", "admittance", "cubic", "soft"]);
    let dim = if name == "admittance" { 2 } else { c.rng.us(1, 2) };
    let mut net = Net::random(c, dim);
    let share = *c.rng.pick(&[1.0, 0.5, 0.3]);
    let mut any = false;
    for e in net.elems.iter_mut().filter(|e| e.kind == Kind::Conducts) {
        if c.rng.chance(share) {
            any = true;
            e.name = name;
            e.gain = match name {
                "admittance" => vec![c.rng.f(0.2, 3.0), c.rng.f(-2.0, 2.0)],
                "cubic" => vec![c.rng.f(0.3, 3.0), c.rng.f(0.0, 0.3)],
                _ => vec![c.rng.f(0.5, 3.0), c.rng.f(0.0, 0.4)],
            };
        }
    }
    if !any {
        return c.count("skipped");
    }
    let margin: f64 = *c.rng.pick(&[1e-4, 1e-6]);
    let what = net.json().to_string();
    c.seen(&(name, net.elems.iter().map(|e| (e.name, e.input, e.output)).collect::<Vec<_>>()));
    c.sample(name, || what.clone());
    let a = match solve(c, &net, margin) {
        Ok(Ok(r)) => answer(&r),
        // Newton's method owes an answer only where everything is linear
        Ok(Err(_)) if name != "admittance" => return c.count("own elements, not solved"),
        r => return c.fail("not-solved", format!("{what}: {r:?}")),
    };
    let Some(a) = a else { return c.fail("result", what) };
    let broken = net.broken_by(&a, margin, &law);
    let sig = broken.as_ref().map_or("", |b| b.0);
    c.check(broken.is_none(), sig, || format!("{what}: {a:?}: {broken:?}"));
    c.count(name);
}

fn refused(c: &mut Ctx) {
    let dim = c.rng.us(1, 3);
    let mut net = Net::random(c, dim);
    if net.elems.is_empty() {
        return c.count("skipped");
    }
    let k = c.rng.below(net.elems.len());
    let mut study;
    let mut conf = match cut(|| configs(c, &net)) {
        Ok(Ok(m)) => m,
        r => return c.fail("configs", format!("{r:?}")),
    };
    let what = match c.rng.below(7) {
        0 => {
            // The same name twice
            let all = all_of(net.study);
            let (name, old) = *c.rng.pick(&all);
            let new = if c.rng.chance(0.3) { old } else { reluctant };
            let k = conf[net.study].clone();
            let r = cut(move || k.add_element_type(name, new).map(|_| ()).map_err(|e| e.to_string()));
            c.count("the same name twice");
            c.seen(&(name, new as usize == old as usize));
            c.check(matches!(r, Ok(Err(_))), "name-accepted", || format!("{name}: {r:?}"));
            return;
        }
        1 => {
            study = c.rng.pick(&["", "dc", "heat_transfer ", "Another", "another_"]).to_string();
            if c.rng.chance(0.3) {
                conf.clear();
                study = net.study.to_string();
            }
            let (s, m) = (study.clone(), conf.clone());
            let r = cut(move || NodalAnalysisStudyBuilder::new(s, Some(m)).map(|_| ()).map_err(|e| e.to_string()));
            c.count("unknown study");
            c.check(matches!(r, Ok(Err(_))), "study-accepted", || format!("{study}: {r:?}"));
            return;
        }
        2 => {
            net.elems[k].name = *c.rng.pick(&["inductor", "Resistor", "conductor_", if net.study == "dc_circuit" { "conductor" } else { "resistor" }]);
            "unknown element"
        }
        3 => {
            net.elems[k].name = "reluctant";
            "element that is not made"
        }
        4 => {
            net.elems[k].name = "faulty";
            "element without a flux"
        }
        5 => {
            net.elems[k].name = "undefined";
            net.elems[k].gain = vec![1.0; dim];
            "element whose flux is not a number"
        }
        _ => {
            if net.elems[k].kind == Kind::Conducts || c.rng.chance(0.4) {
                let i = *net.locked.keys().next().unwrap_or(&0);
                net.locked.insert(i, vec![1.0; if c.rng.chance(0.5) { dim - 1 } else { dim + 1 }]);
            } else {
                net.elems[k].gain = vec![1.0; if c.rng.chance(0.5) { dim - 1 } else { dim + 1 }];
            }
            "wrong dimension"
        }
    };
    c.count(what);
    let text = net.json().to_string();
    c.seen(&text);
    c.sample(what, || text.clone());
    let mut side = Ctx::detached(c.rng.clone());
    let r = cut(move || net.builder(&mut side, Some(conf)).and_then(|b| b.run_study(1e-4, 50)).map_err(|e| e.to_string()));
    c.check(matches!(r, Ok(Err(_))), "accepted", || format!("{what}: {text}: {r:?}"));
}

// ------------------------------------------------------------- the parts themselves

#[derive(Clone, Debug)]
enum Does {
    Conducts(f64),
    Pumps(Vec<f64>),
    Drives { delta: Vec<f64>, output: bool },
    Own(&'static str, Vec<f64>),
}

#[derive(Clone, Debug)]
struct Part {
    does: Does,
    i: usize,
    o: usize,
    at_i: bool,
    at_o: bool,
}

#[derive(Clone, Debug)]
struct Model {
    dim: usize,
    /// Potential and whether it is locked; gone if dropped
    nodes: Vec<Option<(Vec<f64>, bool)>>,
    parts: Vec<Part>,
}

fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(a, b)| a - b).collect()
}
fn add(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(a, b)| a + b).collect()
}

impl Model {
    /// `None` where an error is due.
    fn flux(&mut self, p: usize, busy: &mut Vec<usize>) -> Option<Vec<f64>> {
        let part = self.parts[p].clone();
        let (u, v) = (self.nodes[part.i].as_ref()?.0.clone(), self.nodes[part.o].as_ref()?.0.clone());
        Some(match part.does {
            Does::Conducts(g) => sub(&u, &v).iter().map(|d| d * g).collect(),
            Does::Pumps(f) => f,
            Does::Own(name, gain) => law(&Elem { kind: Kind::Conducts, name, input: 0, output: 0, gain }, &sub(&u, &v)),
            Does::Drives { delta, output } => {
                let driven = if output { part.o } else { part.i };
                // A node that is being balanced cannot move, and no node drives itself
                if busy.contains(&driven) || part.i == part.o {
                    return None;
                }
                self.nodes[driven].as_mut()?.0 = if output { add(&u, &delta) } else { sub(&v, &delta) };
                let d = self.discrepancy(driven, busy)?;
                if output { d.iter().map(|d| -d).collect() } else { d }
            }
        })
    }

    fn discrepancy(&mut self, n: usize, busy: &mut Vec<usize>) -> Option<Vec<f64>> {
        self.nodes[n].as_ref()?;
        busy.push(n);
        let mut sum = vec![0.0; self.dim];
        for (sign, p) in (0..self.parts.len()).flat_map(|p| {
            let q = &self.parts[p];
            [(1.0, q.at_o && q.o == n, p), (-1.0, q.at_i && q.i == n, p)]
        }).filter(|x| x.1).map(|x| (x.0, x.2)).collect::<Vec<_>>() {
            let f = self.flux(p, busy)?;
            for k in 0..self.dim {
                sum[k] += sign * f[k];
            }
        }
        busy.pop();
        Some(sum)
    }
}

impl Model {
    /// Where each source wants the node it drives to be.
    fn wants(&self) -> Vec<(usize, Vec<f64>)> {
        self.parts.iter().filter_map(|p| match &p.does {
            Does::Drives { delta, output } => {
                let (u, v) = (self.nodes[p.i].as_ref()?, self.nodes[p.o].as_ref()?);
                Some(if *output { (p.o, add(&u.0, delta)) } else { (p.i, sub(&v.0, delta)) })
            }
            _ => None,
        }).collect()
    }

    fn settled(&self) -> bool {
        self.wants().iter().all(|(n, v)| self.nodes[*n].as_ref().is_none_or(|x| near(&x.0, v)))
    }
}

fn near(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs() + y.abs()))
}

fn resync(m: &mut Model, ends: &[End]) {
    for (n, e) in m.nodes.iter_mut().zip(ends) {
        if let (Some(n), Ok(v)) = (n, get_node_potential(e)) {
            n.0 = v.into();
        }
    }
}

/// A history of calls on nodes and elements, next to a plain model of them.
fn parts(c: &mut Ctx) {
    let dim = *c.rng.pick(&[1, 1, 1, 2, 2, 3, 3, 5, 6]);
    let count = c.rng.us(2, 6);
    let mut m = Model { dim, nodes: vec![], parts: vec![] };
    let mut nodes: Vec<Option<Node>> = vec![];
    let mut ends: Vec<End> = vec![];
    let mut elems: Vec<Rc<GenericElement>> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..count {
        let n = GenericNode::new();
        let v = Net::vector(c, dim, -8.0, 8.0);
        let e = Rc::downgrade(&n);
        let start: Vec<f64> = get_node_potential(&e).map(Vec::from).unwrap_or_default();
        c.check(start == [1.0] && is_locked(&e).is_ok_and(|l| !l), "new-node", || format!("a new node is at {start:?}"));
        c.check(set_node_potential(&e, v.clone()).is_ok(), "set", || format!("{v:?}"));
        m.nodes.push(Some((v, false)));
        nodes.push(Some(n));
        ends.push(e);
    }
    let mut sources = 0;
    for _ in 0..c.rng.us(5, 40) {
        let (i, o) = (c.rng.below(count), c.rng.below(count));
        let alive = m.nodes[i].is_some() && m.nodes[o].is_some();
        let op = c.rng.below(100);
        log.push(format!("{op} {i} {o}"));
        let fail = |c: &mut Ctx, sig: &str, m: &Model, log: &[String], d: String| c.fail(sig, format!("after {log:?}, {m:?}: {d}"));
        if op < 40 {
            // A new element
            let kind = c.rng.below(6);
            let wrong = c.rng.chance(0.08);
            let n = if wrong && kind != 3 { if c.rng.chance(0.5) { dim + 1 } else { dim - 1 } } else { dim };
            let v = Net::vector(c, n, -5.0, 5.0);
            let g = c.rng.f(0.25, 4.0);
            let heat = c.rng.chance(0.5);
            let (a, b) = (ends[i].clone(), ends[o].clone());
            let (li, lo) = (m.nodes[i].as_ref().is_some_and(|n| n.1), m.nodes[o].as_ref().is_some_and(|n| n.1));
            // What is due, and whether it is refused
            let (made, part, refuse) = match kind {
                0 => {
                    let long = wrong && c.rng.chance(0.5);
                    let gain = if wrong { if long { vec![g; 3] } else { vec![] } } else if heat && c.rng.chance(0.5) { vec![2.0, 2.0 * g] } else if heat { vec![g] } else { vec![1.0 / g] };
                    let make = if heat { conductor } else { resistor };
                    (cut(|| make(a, b, gain)), Part { does: Does::Conducts(g), i, o, at_i: true, at_o: true }, wrong)
                }
                1 => {
                    let make = if heat { heat_flux } else { current_source };
                    (cut(|| make(a, b, v.clone())), Part { does: Does::Pumps(v.clone()), i, o, at_i: true, at_o: true }, wrong)
                }
                2 if sources < 4 => {
                    let make = if heat { temperature_delta } else { voltage_source };
                    let output = !lo;
                    (cut(|| make(a, b, v.clone())), Part { does: Does::Drives { delta: v.clone(), output }, i, o, at_i: output, at_o: !output }, wrong || (li && lo))
                }
                3 => {
                    let name = if dim == 2 { *c.rng.pick(&["admittance", "cubic", "soft"]) } else { *c.rng.pick(&["cubic", "soft"]) };
                    let gain = vec![g, c.rng.f(0.0, 1.0)];
                    let make = all_of("").iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(reluctant);
                    (cut(|| make(a, b, gain.clone())), Part { does: Does::Own(name, gain.clone()), i, o, at_i: true, at_o: true }, false)
                }
                4 => {
                    // Known to one of its nodes, or to none
                    let (at_i, at_o) = (c.rng.chance(0.5), c.rng.chance(0.5));
                    (cut(|| GenericElement::try_new(vec![g], a, b, normal_flux, c.case % 2 == 0, at_i, at_o)), Part { does: Does::Conducts(g), i, o, at_i, at_o }, false)
                }
                _ => {
                    let (at_i, at_o) = (c.rng.chance(0.5), c.rng.chance(0.5));
                    let v = Net::vector(c, dim, -5.0, 5.0);
                    let part = Part { does: Does::Pumps(v.clone()), i, o, at_i, at_o };
                    (cut(|| GenericElement::try_new(v, a, b, constant_flux, false, at_i, at_o)), part, false)
                }
            };
            let due = alive && !refuse;
            c.count(if due { "elements made" } else { "elements refused" });
            match made {
                Ok(Ok(e)) if due => {
                    if let Does::Drives { delta, output } = &part.does {
                        sources += 1;
                        let (u, v) = (m.nodes[i].clone().unwrap_or_default().0, m.nodes[o].clone().unwrap_or_default().0);
                        m.nodes[if *output { o } else { i }] = Some((if *output { add(&u, delta) } else { sub(&v, delta) }, true));
                    }
                    m.parts.push(part);
                    elems.push(e);
                    c.eval();
                }
                Ok(Err(_)) if !due => c.eval(),
                r => return fail(c, "element", &m, &log, format!("{part:?} is {}, but {:?}", if due { "due" } else { "to be refused" }, r.map(|r| r.map(|_| "made").map_err(|e| e.to_string())))),
            }
        } else if op < 45 {
            let r = cut(|| lock_node(&ends[i]).is_ok());
            c.check(r == Ok(m.nodes[i].is_some()), "lock", || format!("after {log:?}: {r:?}"));
            if let Some(n) = &mut m.nodes[i] {
                n.1 = true;
            }
        } else if op < 60 {
            let v = Net::vector(c, dim, -8.0, 8.0);
            let r = cut(|| set_node_potential(&ends[i], v.clone()).is_ok());
            c.check(r == Ok(m.nodes[i].is_some()), "set", || format!("after {log:?}: {r:?}"));
            if let Some(n) = &mut m.nodes[i] {
                n.0 = v;
            }
        } else if op < 63 {
            nodes[i] = None;
            m.nodes[i] = None;
            c.count("nodes dropped");
        } else if op < 66 {
            // Someone else has the node: an error, not a panic
            let Some(n) = &nodes[i] else { continue };
            let Ok(held) = n.try_borrow_mut() else { return fail(c, "held", &m, &log, format!("node {i} is still borrowed")) };
            let r = cut(|| (is_locked(&ends[i]).is_err(), get_node_potential(&ends[i]).is_err(), set_node_potential(&ends[i], vec![0.0; dim]).is_err(), lock_node(&ends[i]).is_err()));
            drop(held);
            c.count("nodes held elsewhere");
            c.check(r == Ok((true, true, true, true)), "held", || format!("after {log:?}: {r:?}"));
        } else if op < 70 {
            // Driven nodes where they belong
            for _ in 0..count {
                for (n, v) in m.wants() {
                    let r = cut(|| set_node_potential(&ends[n], v.clone()).is_ok());
                    c.check(r == Ok(true), "set", || format!("after {log:?}: {r:?}"));
                    if let Some(x) = &mut m.nodes[n] {
                        x.0 = v;
                    }
                }
            }
        } else if op < 87 && !elems.is_empty() {
            let p = c.rng.below(elems.len());
            let (e, mut after) = (elems[p].clone(), m.clone());
            let want = after.flux(p, &mut vec![]);
            let got = cut(|| e.get_flux().map(Vec::from).ok());
            c.count(if want.is_some() { "fluxes" } else { "fluxes refused" });
            match (&got, &want) {
                (Ok(Some(g)), Some(w)) if near(g, w) => c.eval(),
                (Ok(None), None) => return c.eval(),
                (Ok(Some(_)), Some(_)) if !m.settled() => {
                    // What comes first decides, except for where this element puts its node
                    if let Does::Drives { output, .. } = m.parts[p].does {
                        let n = if output { m.parts[p].o } else { m.parts[p].i };
                        let got = get_node_potential(&ends[n]).map(Vec::from).unwrap_or_default();
                        let want = after.nodes[n].clone().unwrap_or_default().0;
                        c.check(near(&got, &want), "drives", || format!("after {log:?}, {m:?}: node {n} is at {got:?}, not {want:?}"));
                        c.count("nodes moved");
                    }
                    c.count("unsettled");
                    resync(&mut after, &ends);
                }
                _ => return fail(c, "flux", &m, &log, format!("element {p} carries {got:?}, not {want:?}")),
            }
            m = after;
        } else {
            let Some(n) = nodes[i].clone() else { continue };
            let mut after = m.clone();
            let want = after.discrepancy(i, &mut vec![]);
            let got = cut(|| n.borrow().get_flux_discrepancy().map(Vec::from).ok());
            c.count(if want.is_some() { "balances" } else { "balances refused" });
            match (&got, &want) {
                (Ok(Some(g)), Some(w)) if near(g, w) => c.eval(),
                (Ok(None), None) => return c.eval(),
                (Ok(Some(_)), Some(_)) if !m.settled() => {
                    c.count("unsettled");
                    resync(&mut after, &ends);
                }
                _ => return fail(c, "balance", &m, &log, format!("node {i} is out of balance by {got:?}, not {want:?}")),
            }
            m = after;
        }
        for k in 0..count {
            let got = cut(|| (get_node_potential(&ends[k]).map(Vec::from).ok(), is_locked(&ends[k]).ok()));
            let want = m.nodes[k].clone();
            let same = match (&got, &want) {
                (Ok((Some(v), Some(l))), Some((w, lw))) => near(v, w) && l == lw,
                (Ok((None, None)), None) => true,
                _ => false,
            };
            if !c.check(same, "state", || format!("after {log:?}: node {k} is {got:?}, not {want:?}")) {
                return;
            }
        }
    }
    c.count("histories");
    c.seen(&m.parts.iter().map(|p| (p.i, p.o, std::mem::discriminant(&p.does))).collect::<Vec<_>>());
    c.sample("history", || format!("{m:?}"));
}
