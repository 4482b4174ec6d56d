//! N01, N02: solutions obey the laws of the network, and its description does not matter.
use crate::net::{answer, Answer, Kind, Net};
use neapolitan::NodalAnalysisStudyBuilder;
use vmon::{cut, Ctx};

pub fn run(net: &Net, c: &mut Ctx, margin: f64) -> Result<Result<Answer, String>, String> {
    let direct = c.rng.chance(0.7);
    let mut side = Ctx::detached(c.rng.clone());
    c.rng.next();
    let r = cut(move || {
        let b = if direct {
            net.builder(&mut side, None)
        } else {
            net.model().map(NodalAnalysisStudyBuilder::from_model_with_default_config).ok_or(anyhow::anyhow!("the model could not be read"))
        };
        b.and_then(|b| b.run_study(margin, 100)).map_err(|e| e.to_string())
    })?;
    Ok(r.and_then(|r| answer(&r).ok_or_else(|| "the result is not what results look like".to_string())))
}

pub fn tolerance(margin: f64) -> f64 {
    1e3 * margin + 1e-7
}

pub fn case(c: &mut Ctx) {
    let mut net = Net::random(c, 1);
    // Conductors of very different sizes
    let wide = c.rng.chance(0.2);
    if wide {
        let at = if c.rng.chance(0.5) { c.rng.f(-3.0, 4.0) } else { c.rng.f(-8.0, 8.0) };
        for e in net.elems.iter_mut().filter(|e| e.kind == Kind::Conducts) {
            let k = 10f64.powf(at + c.rng.f(-1.5, 1.5));
            e.gain[0] *= k;
        }
        // Flux sources of the same size, so that potentials stay moderate
        let heat = net.study == "heat_transfer";
        if c.rng.chance(0.6) {
            let k = 10f64.powf((if heat { at } else { -at }).round());
            net.elems.iter_mut().filter(|e| e.kind == Kind::Pumps).for_each(|e| e.gain[0] *= k);
        }
        c.count("wide");
    }
    let Some((pots, flux)) = net.solution() else { return c.count("skipped") };
    if pots.iter().chain(&flux).flatten().any(|v| v.abs() > if wide { 1e6 } else { 1e4 }) {
        return c.count("skipped");
    }
    let margin: f64 = *c.rng.pick(&[1e-3, 1e-4, 1e-6, 1e-8]);
    let sizes = || net.elems.iter().filter(|e| e.kind == Kind::Conducts).map(|e| e.conductance());
    // Not closer than rounding admits
    let large = |v: &[Vec<f64>]| v.iter().flatten().fold(1.0, |m: f64, f| m.max(f.abs()));
    let margin = if wide { margin.max(1e-10 * large(&flux).max(large(&pots) * sizes().fold(0.0, f64::max))) } else { margin };
    let spread = sizes().fold(0.0, f64::max) / sizes().fold(f64::INFINITY, f64::min);
    let what = format!("{}", net.json());
    c.count(net.study);
    c.add("sources", net.elems.iter().filter(|e| e.kind == Kind::Lifts).count() as u64);
    if net.locked.len() > 1 {
        c.count("several fixed nodes");
    }
    c.seen(&(net.nodes, net.study, net.elems.iter().map(|e| (e.name, e.input, e.output)).collect::<Vec<_>>()));
    c.sample(net.study, || what.clone());
    let r = match run(&net, c, margin) {
        Err(m) => return c.fail("panic", format!("{what}: {m}")),
        Ok(Err(_)) if wide && (margin < 1e-6 || spread > 1e5) => return c.count("wide, not solved"),
        Ok(Err(e)) => return c.fail("not-solved", format!("{what}\nto within {margin}: {e}, but {pots:?} solves it")),
        Ok(Ok(r)) => r,
    };
    c.count("solved");
    let broken = net.broken(&r, margin);
    let sig = broken.as_ref().map_or("", |b| b.0);
    if !c.check(broken.is_none(), sig, || format!("{what}\n{r:?}: {broken:?}")) {
        return;
    }
    if wide {
        return;
    }
    let tol = tolerance(margin);
    for (i, want) in pots.iter().enumerate() {
        let got = &r.nodes[&i];
        c.check((got[0] - want[0]).abs() <= tol, "potential", || format!("{what}\nnode {i} is at {got:?}, not {want:?}"));
    }
    for (i, want) in flux.iter().enumerate() {
        let got = &r.elems[&format!("{}.{i}", net.elems[i].name)];
        c.check((got[0] - want[0]).abs() <= tol * 10.0, "flux", || format!("{what}\nelement {i} carries {got:?}, not {want:?}"));
    }
}

pub fn invariance(c: &mut Ctx) {
    let net = Net::random(c, 1);
    let Some((pots, flux)) = net.solution() else { return c.count("skipped") };
    if pots.iter().chain(&flux).flatten().any(|v| v.abs() > 1e3) {
        return c.count("skipped");
    }
    let margin = 1e-8;
    let what = format!("{}", net.json());
    let base = match run(&net, c, margin) {
        Err(m) => return c.fail("panic", format!("{what}: {m}")),
        Ok(r) => r,
    };
    let mut node_of: Vec<usize> = (0..net.nodes).collect();
    let mut elem_of: Vec<usize> = (0..net.elems.len()).collect();
    let mut sign = vec![1.0; net.elems.len()];
    let mut other = net.clone();
    // Node i and element i of `net` become node_of[i] and elem_of[i]
    let kind = c.rng.below(7);
    let mut factor = 1.0;
    let mut shift = 0.0;
    let name = match kind {
        0 => "again",
        1 => {
            c.rng.shuffle(&mut elem_of);
            for (i, e) in net.elems.iter().enumerate() {
                other.elems[elem_of[i]] = e.clone();
            }
            "elements in another order"
        }
        2 => {
            c.rng.shuffle(&mut node_of);
            other.locked = net.locked.iter().map(|(k, v)| (node_of[*k], v.clone())).collect();
            other.hints = net.hints.iter().map(|(k, v)| (node_of[*k], v.clone())).collect();
            for e in &mut other.elems {
                e.input = node_of[e.input];
                e.output = node_of[e.output];
            }
            "nodes in another order"
        }
        3 => {
            for (i, e) in other.elems.iter_mut().enumerate() {
                if c.rng.chance(0.5) {
                    std::mem::swap(&mut e.input, &mut e.output);
                    sign[i] = -1.0;
                    if e.kind != Kind::Conducts {
                        e.gain[0] = -e.gain[0];
                    }
                }
            }
            "elements the other way around"
        }
        4 => {
            // Everything is linear
            factor = *c.rng.pick(&[2.0, 0.5, -1.0, 3.0]);
            for v in other.locked.values_mut() {
                v[0] *= factor;
            }
            for e in &mut other.elems {
                if e.kind != Kind::Conducts {
                    e.gain[0] *= factor;
                }
            }
            "sources scaled"
        }
        5 => {
            // Only differences matter
            shift = c.rng.range(-20, 20) as f64;
            for v in other.locked.values_mut() {
                v[0] += shift;
            }
            "potentials shifted"
        }
        _ => {
            // One conductor is two in parallel, or carries nothing new
            let Some(i) = (0..other.elems.len()).find(|i| other.elems[*i].kind == Kind::Conducts) else { return };
            let e = other.elems[i].clone();
            let g = e.conductance();
            if net.study == "dc_circuit" {
                other.elems[i].gain = vec![2.0 / g];
                let mut f = e.clone();
                f.gain = vec![2.0 / g];
                if c.rng.chance(0.5) {
                    std::mem::swap(&mut f.input, &mut f.output);
                }
                other.elems.push(f);
            } else {
                other.elems[i].gain = if other.elems[i].name == "conductor" { vec![2.0, g] } else { vec![g / 2.0] };
                let mut f = e.clone();
                f.name = "conductor";
                f.gain = vec![4.0, 2.0 * g];
                other.elems.push(f);
            }
            sign[i] = 0.5;
            "one conductor for two"
        }
    };
    c.count(name);
    c.seen(&(kind, net.nodes, net.elems.iter().map(|e| (e.name, e.input, e.output)).collect::<Vec<_>>()));
    c.sample(name, || format!("{what}\nand {}", other.json()));
    let twin = match run(&other, c, margin) {
        Err(m) => return c.fail("panic", format!("{}: {m}", other.json())),
        Ok(r) => r,
    };
    match (base, twin) {
        (Ok(a), Ok(b)) => {
            let tol = 1e-4;
            let mut ok = a.nodes.len() == b.nodes.len();
            for (i, v) in &a.nodes {
                ok &= b.nodes.get(node_of.get(*i).unwrap_or(&usize::MAX)).is_some_and(|w| w.len() == v.len() && (w[0] - (v[0] * factor + shift)).abs() <= tol);
            }
            for i in 0..net.elems.len() {
                let f = a.elems.get(&format!("{}.{i}", net.elems[i].name));
                let g = b.elems.get(&format!("{}.{}", other.elems[elem_of[i]].name, elem_of[i]));
                ok &= match (f, g) {
                    (Some(f), Some(g)) => (g[0] - f[0] * factor * sign[i]).abs() <= tol,
                    _ => false,
                };
            }
            c.check(ok, "differs", || format!("{name}:\n{what}\n{a:?}\nbut {}\n{b:?}", other.json()));
        }
        (Err(_), Err(_)) => c.count("neither solved"),
        (a, b) => c.fail("only-one-solved", format!("{name}:\n{what}\n{a:?}\nbut {}\n{b:?}", other.json())),
    }
}
