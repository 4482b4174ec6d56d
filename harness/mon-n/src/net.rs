//! Networks, and an independent solution of them by modified nodal analysis.
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::{NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator, NodalAnalysisStudyResult};
use std::collections::{BTreeMap, HashMap};
use vmon::{solve_dense, Ctx};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// Flux in proportion to the difference of potentials
    Conducts,
    /// Difference of potentials from input to output
    Lifts,
    /// Flux from input to output
    Pumps,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub kind: Kind,
    pub name: &'static str,
    pub input: usize,
    pub output: usize,
    pub gain: Vec<f64>,
}

impl Elem {
    pub fn conductance(&self) -> f64 {
        match (self.name, self.gain.len()) {
            ("resistor", _) => 1.0 / self.gain[0],
            ("conductor", 2) => self.gain[1] / self.gain[0],
            _ => self.gain[0],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Net {
    pub study: &'static str,
    pub dim: usize,
    pub nodes: usize,
    pub locked: BTreeMap<usize, Vec<f64>>,
    /// Configured, but not locked
    pub hints: BTreeMap<usize, Vec<f64>>,
    pub elems: Vec<Elem>,
}

pub type Config = Option<HashMap<String, NodalAnalysisStudyConfigurator>>;

/// What came out, read back from its serialized form.
#[derive(Clone, Debug)]
pub struct Answer {
    pub nodes: BTreeMap<usize, Vec<f64>>,
    pub elems: BTreeMap<String, Vec<f64>>,
}

fn vector(v: &serde_json::Value) -> Option<Vec<f64>> {
    v.as_array()?.iter().map(|x| x.as_f64()).collect()
}

pub fn answer_from_json(v: &serde_json::Value) -> Option<Answer> {
    let o = v.as_object()?;
    if o.len() != 2 {
        return None;
    }
    Some(Answer {
        nodes: o.get("nodes")?.as_object()?.iter().map(|(k, v)| Some((k.parse().ok()?, vector(v)?))).collect::<Option<_>>()?,
        elems: o.get("elements")?.as_object()?.iter().map(|(k, v)| Some((k.clone(), vector(v)?))).collect::<Option<_>>()?,
    })
}

pub fn answer(r: &NodalAnalysisStudyResult) -> Option<Answer> {
    answer_from_json(&serde_json::to_value(r).ok()?)
}

fn eighths(v: f64) -> f64 {
    (v * 8.0).round() / 8.0
}

struct Groups(Vec<usize>);
impl Groups {
    fn root(&mut self, i: usize) -> usize {
        if self.0[i] == i {
            return i;
        }
        let r = self.root(self.0[i]);
        self.0[i] = r;
        r
    }
    fn join(&mut self, i: usize, j: usize) -> bool {
        let (a, b) = (self.root(i), self.root(j));
        self.0[a] = b;
        a != b
    }
}

impl Net {
    pub fn vector(c: &mut Ctx, dim: usize, lo: f64, hi: f64) -> Vec<f64> {
        (0..dim).map(|_| eighths(c.rng.f(lo, hi))).collect()
    }

    pub fn elem(&self, c: &mut Ctx, kind: Kind, a: usize, b: usize) -> Elem {
        let (input, output) = if c.rng.chance(0.5) { (a, b) } else { (b, a) };
        let heat = self.study == "heat_transfer";
        let (name, gain) = match kind {
            Kind::Conducts if heat => match c.rng.below(3) {
                0 => ("convection_interface", vec![c.rng.f(0.1, 3.0)]),
                1 => ("conductor", vec![c.rng.f(0.1, 3.0)]),
                _ => ("conductor", vec![c.rng.f(0.5, 2.0), c.rng.f(0.2, 4.0)]),
            },
            Kind::Conducts => ("resistor", vec![if c.rng.chance(0.5) { c.rng.range(1, 12) as f64 } else { c.rng.f(0.3, 15.0) }]),
            Kind::Lifts => (if heat { "temperature_delta" } else { "voltage_source" }, Net::vector(c, self.dim, -12.0, 12.0)),
            Kind::Pumps => (if heat { "heat_flux" } else { "current_source" }, Net::vector(c, self.dim, -3.0, 3.0)),
        };
        Elem { kind, name, input, output, gain }
    }

    /// A network with exactly one solution.
    pub fn random(c: &mut Ctx, dim: usize) -> Net {
        let study = *c.rng.pick(&["dc_circuit", "heat_transfer"]);
        let nodes = match c.rng.below(100) {
            0 if c.rng.chance(0.1) => c.rng.us(31, 60),
            0..=2 => c.rng.us(15, 30),
            3..=15 => c.rng.us(9, 14),
            _ => c.rng.us(2, 8),
        };
        let mut n = Net { study, dim, nodes, locked: BTreeMap::new(), hints: BTreeMap::new(), elems: vec![] };
        let refs = if c.rng.chance(0.4) { c.rng.us(1, 3).min(nodes) } else { 1 };
        let mut order: Vec<usize> = (0..nodes).collect();
        c.rng.shuffle(&mut order);
        let mut lifts = Groups((0..nodes).collect());
        for i in 0..refs {
            n.locked.insert(order[i], Net::vector(c, dim, -10.0, 10.0));
            lifts.join(order[0], order[i]);
        }
        let p_lift = *c.rng.pick(&[0.0, 0.2, 0.4, 0.8]);
        for i in refs..nodes {
            // Chains as well as bushes
            let j = if c.rng.chance(0.4) { i - 1 } else { c.rng.below(i) };
            let kind = if c.rng.chance(p_lift) { Kind::Lifts } else { Kind::Conducts };
            if kind == Kind::Lifts {
                lifts.join(order[i], order[j]);
            }
            let e = n.elem(c, kind, order[i], order[j]);
            n.elems.push(e);
        }
        for _ in 0..c.rng.us(0, nodes) {
            let (a, b) = (c.rng.below(nodes), c.rng.below(nodes));
            let kind = match c.rng.below(6) {
                0..=2 => Kind::Conducts,
                3..=4 => Kind::Pumps,
                _ if lifts.join(a, b) => Kind::Lifts,
                _ => Kind::Conducts,
            };
            let e = n.elem(c, kind, a, b);
            n.elems.push(e);
        }
        for i in 0..nodes {
            if !n.locked.contains_key(&i) && c.rng.chance(0.15) {
                n.hints.insert(i, Net::vector(c, dim, -5.0, 5.0));
            }
        }
        if n.elems.iter().any(|e| e.input == e.output) {
            c.count("from a node to itself");
        }
        c.rng.shuffle(&mut n.elems);
        if c.rng.chance(0.003) {
            n.crowd(c);
        }
        n
    }

    /// Puts the network among a large number of fixed nodes.
    fn crowd(&mut self, c: &mut Ctx) {
        let total = match c.rng.below(40) {
            0 => c.rng.us(65_500, 66_500),
            1..=20 => c.rng.us(240, 300),
            _ => c.rng.us(300, 1500),
        };
        // Most of its nodes in the back
        let mut at: Vec<usize> = vec![];
        while at.len() < self.nodes {
            let i = if c.rng.chance(0.7) { total - 1 - c.rng.below(self.nodes * 2) } else { c.rng.below(total) };
            if !at.contains(&i) {
                at.push(i);
            }
        }
        self.locked = std::mem::take(&mut self.locked).into_iter().map(|(k, v)| (at[k], v)).collect();
        self.hints = std::mem::take(&mut self.hints).into_iter().map(|(k, v)| (at[k], v)).collect();
        for e in &mut self.elems {
            e.input = at[e.input];
            e.output = at[e.output];
        }
        self.nodes = total;
        for i in (0..total).filter(|i| !at.contains(i)) {
            let v = Net::vector(c, self.dim, -10.0, 10.0);
            self.locked.insert(i, v);
        }
        // Some of the others are in use as well
        for _ in 0..c.rng.us(0, 5) {
            let (i, j) = (c.rng.below(total), c.rng.below(total));
            if i != j {
                let e = self.elem(c, Kind::Conducts, i, j);
                self.elems.push(e);
            }
        }
        c.count("among many fixed nodes");
    }

    pub fn builder(&self, c: &mut Ctx, config: Config) -> anyhow::Result<NodalAnalysisStudyBuilder> {
        let mut b = NodalAnalysisStudyBuilder::new(self.study.to_string(), config)?;
        // In one go or bit by bit
        let first = c.rng.us(0, self.nodes);
        b = b.add_nodes(first).add_nodes(self.nodes - first);
        let late = c.rng.chance(0.5);
        let mut conf: Vec<(usize, Vec<f64>, bool)> = self.locked.iter().map(|(k, v)| (*k, v.clone(), true))
            .chain(self.hints.iter().map(|(k, v)| (*k, v.clone(), false))).collect();
        c.rng.shuffle(&mut conf);
        if !late {
            for (k, v, l) in &conf {
                b = b.configure_node(*k, v.clone(), *l, None);
            }
        }
        for e in &self.elems {
            b = b.add_element(e.name, e.input, e.output, e.gain.clone())?;
        }
        if late {
            for (k, v, l) in &conf {
                b = b.configure_node(*k, v.clone(), *l, Some(HashMap::from([("height".to_string(), 2.0)])));
            }
        }
        Ok(b)
    }

    pub fn json(&self) -> serde_json::Value {
        let conf: serde_json::Map<String, serde_json::Value> = self.locked.iter().map(|(k, v)| (k.to_string(), serde_json::json!({"potential": v, "is_locked": true, "metadata": null})))
            .chain(self.hints.iter().map(|(k, v)| (k.to_string(), serde_json::json!({"potential": v, "is_locked": false, "metadata": {"m": 1.5}})))).collect();
        serde_json::json!({
            "model_type": self.study, "nodes": self.nodes, "configuration": conf,
            "elements": self.elems.iter().map(|e| serde_json::json!({"element_type": e.name, "input": e.input, "output": e.output, "gain": e.gain})).collect::<Vec<_>>(),
        })
    }

    pub fn model(&self) -> Option<NodalAnalysisModel> {
        serde_json::from_str(&self.json().to_string()).ok()
    }

    /// Potentials and fluxes, component by component.
    pub fn solution(&self) -> Option<(Vec<Vec<f64>>, Vec<Vec<f64>>)> {
        let free: Vec<usize> = (0..self.nodes).filter(|i| !self.locked.contains_key(i)).collect();
        let at = |i: usize| free.iter().position(|f| *f == i);
        let sources: Vec<usize> = (0..self.elems.len()).filter(|e| self.elems[*e].kind == Kind::Lifts).collect();
        let m = free.len() + sources.len();
        let mut pots = vec![vec![0.0; self.dim]; self.nodes];
        let mut flux = vec![vec![0.0; self.dim]; self.elems.len()];
        for k in 0..self.dim {
            let (mut a, mut b) = (vec![vec![0.0; m]; m], vec![0.0; m]);
            for (q, e) in self.elems.iter().enumerate() {
                // Flux leaves the input and enters the output
                for (node, sign) in [(e.input, -1.0), (e.output, 1.0)] {
                    let Some(row) = at(node) else { continue };
                    match e.kind {
                        Kind::Conducts => {
                            for (other, s) in [(e.input, 1.0), (e.output, -1.0)] {
                                let g = sign * s * e.conductance();
                                match at(other) {
                                    Some(col) => a[row][col] += g,
                                    None => b[row] -= g * self.locked[&other][k],
                                }
                            }
                        }
                        Kind::Pumps => b[row] -= sign * e.gain[k],
                        Kind::Lifts => {
                            let col = free.len() + sources.iter().position(|s| *s == q)?;
                            a[row][col] += sign;
                        }
                    }
                }
            }
            for (s, q) in sources.iter().enumerate() {
                let e = &self.elems[*q];
                let row = free.len() + s;
                b[row] = e.gain[k];
                for (node, sign) in [(e.input, -1.0), (e.output, 1.0)] {
                    match at(node) {
                        Some(col) => a[row][col] += sign,
                        None => b[row] -= sign * self.locked[&node][k],
                    }
                }
            }
            let x = if m == 0 { vec![] } else { solve_dense(&a, &b)? };
            for i in 0..self.nodes {
                pots[i][k] = match at(i) {
                    Some(p) => x[p],
                    None => self.locked[&i][k],
                };
            }
            for (q, e) in self.elems.iter().enumerate() {
                flux[q][k] = match e.kind {
                    Kind::Conducts => e.conductance() * (pots[e.input][k] - pots[e.output][k]),
                    Kind::Pumps => e.gain[k],
                    Kind::Lifts => x[free.len() + sources.iter().position(|s| *s == q)?],
                };
            }
        }
        Some((pots, flux))
    }

    /// The laws, at an answer: what is broken first.
    pub fn broken(&self, r: &Answer, margin: f64) -> Option<(&'static str, String)> {
        self.broken_by(r, margin, &|e, d| d.iter().map(|d| e.conductance() * d).collect())
    }

    /// The same, where what conducts carries what `law` says for a difference of potentials.
    pub fn broken_by(&self, r: &Answer, margin: f64, law: &dyn Fn(&Elem, &[f64]) -> Vec<f64>) -> Option<(&'static str, String)> {
        if r.nodes.len() != self.nodes || (0..self.nodes).any(|i| r.nodes.get(&i).is_none_or(|v| v.len() != self.dim)) {
            return Some(("nodes", format!("{} nodes, reported {:?}", self.nodes, r.nodes)));
        }
        let mut flux = vec![];
        for (i, e) in self.elems.iter().enumerate() {
            match r.elems.get(&format!("{}.{i}", e.name)) {
                Some(f) if f.len() == self.dim => flux.push(f),
                f => return Some(("elements", format!("{}.{i} is {f:?}", e.name))),
            }
        }
        if r.elems.len() != self.elems.len() {
            return Some(("elements", format!("{} elements, reported {:?}", self.elems.len(), r.elems.keys())));
        }
        for (i, v) in &self.locked {
            if r.nodes[i] != *v {
                return Some(("locked", format!("node {i} is locked at {v:?}, but reported at {:?}", r.nodes[i])));
            }
        }
        let scale = 1.0 + flux.iter().flat_map(|f| f.iter()).fold(0.0f64, |m, x| m.max(x.abs()));
        for (i, e) in self.elems.iter().enumerate() {
            let deltas: Vec<f64> = (0..self.dim).map(|k| r.nodes[&e.input][k] - r.nodes[&e.output][k]).collect();
            let carried = if e.kind == Kind::Conducts { law(e, &deltas) } else { vec![] };
            for k in 0..self.dim {
                let (u, v) = (r.nodes[&e.input][k], r.nodes[&e.output][k]);
                let f = flux[i][k];
                let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + u.abs() + v.abs() + f.abs());
                let (ok, law) = match e.kind {
                    Kind::Conducts => (close(f, carried[k]), "conduction"),
                    Kind::Lifts => (close(v - u, e.gain[k]), "lift"),
                    Kind::Pumps => (close(f, e.gain[k]), "pump"),
                };
                if !ok {
                    return Some((law, format!("element {i} ({e:?}) is between potentials {u} and {v} and carries {f}")));
                }
            }
        }
        for i in (0..self.nodes).filter(|i| !self.locked.contains_key(i)) {
            for k in 0..self.dim {
                let sum: f64 = self.elems.iter().zip(&flux).map(|(e, f)| if e.input == e.output { 0.0 } else if e.output == i { f[k] } else if e.input == i { -f[k] } else { 0.0 }).sum();
                if !(sum.abs() <= margin * 1.001 + 1e-9 * scale) {
                    return Some(("conservation", format!("node {i} takes in {sum} more than it gives off")));
                }
            }
        }
        None
    }
}
