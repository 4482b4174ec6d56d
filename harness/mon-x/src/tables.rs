//! X03, X04: constants of nature and conversions of units.
use crate::data::{CONSTANTS, RECENT, UNITS};
use geqslib::shunting::eval_str;
use nexsys::parsing::{consts, conversions};
use nexsys::solve_with_preprocessors;
use nexsys::units::{const_data, convert};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;
use vmon::expr::{self, judge, Env};
use vmon::{cut, Ctx};

fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs())
}

/// Evaluates a text with replaced tokens, and solves a program that contains it, against the tree.
fn in_text(c: &mut Ctx, names: &[String], env: &Env, pre: impl Fn(&str) -> anyhow::Result<String> + std::panic::RefUnwindSafe, what: &str) {
    let mut names = names.to_vec();
    names.truncate(c.rng.us(1, 4));
    let d = c.rng.us(0, 3);
    let x = expr::random(&mut c.rng, &names, &[("abs".into(), 1)], d);
    let text = expr::print(&x, &mut c.rng, &expr::SPACES);
    let Some((want, tol)) = judge(&x, env, &mut c.rng) else { return c.count("rounding") };
    let want = want.ok();
    if want.is_some_and(|w| !w.is_finite()) {
        return c.count("not finite");
    }
    c.count(if want.is_some() { "expressions" } else { "division by zero" });
    c.seen(&text);
    c.sample(what, || format!("{text} = {want:?}"));
    let plain = match cut(|| pre(&text)) {
        Err(p) => return c.fail("panic", format!("{text}: {p}")),
        Ok(Err(e)) => return c.fail("refused", format!("{text}: {e}")),
        Ok(Ok(t)) => t,
    };
    let got = cut(|| eval_str(&plain).ok());
    let good = |g: &Option<f64>| match (g, want) {
        (Some(g), Some(w)) => (g - w).abs() <= tol,
        (None, None) => true,
        _ => false,
    };
    c.check(got.as_ref().is_ok_and(good), "value", || format!("{text} became {plain}, which is {got:?}, not {want:?}"));
    // As part of a program: a definition and an equation
    if let Some(w) = want.filter(|w| w.abs() < 1e6 && w.abs() > 1e-3 && tol < 1e-6) {
        for program in [format!("const def = {text}\nans = def"), format!("ans = {text}")] {
            let p = program.clone();
            let got = cut(move || solve_with_preprocessors(&p, 1e-7, 100).map(|r| r.1.get("ans").copied()).map_err(|e| e.to_string()));
            let ok = matches!(&got, Ok(Ok(Some(g))) if (g - w).abs() <= tol + 1e-6);
            c.check(ok, "solution", || format!("{program}: {got:?}, expected {w}"));
        }
        c.count("programs");
    }
}

pub fn constants(c: &mut Ctx) {
    static TABLE: OnceLock<HashMap<String, f64>> = OnceLock::new();
    let table = TABLE.get_or_init(const_data);
    if c.case == 0 {
        for (n, v) in CONSTANTS {
            let got = table.get(n);
            let recent = RECENT.iter().find(|r| r.0 == n).map(|r| r.1);
            let ok = |g: &f64| close(*g, v, 1e-9) || recent.is_some_and(|r| close(*g, r, 1e-6));
            c.check(got.is_some_and(ok), "table", || format!("{n} is {got:?}, not {v}"));
            c.seen(n);
        }
    }
    let known: HashSet<&str> = table.keys().map(|k| k.as_str()).collect();
    match c.rng.below(10) {
        0..=6 => {
            let mut env = Env::standard();
            let mut names: Vec<String> = CONSTANTS.iter().map(|k| k.0.to_string()).collect();
            for (k, v) in table {
                env.vals.insert(k.clone(), *v);
            }
            c.rng.shuffle(&mut names);
            in_text(c, &names, &env, consts, "constants");
        }
        7 => {
            // Text around constants stays as it is, for every constant that it mentions
            let n = c.rng.us(1, 5);
            let mut text = String::new();
            let mut want: Vec<(String, Option<f64>)> = vec![];
            for _ in 0..n {
                let s = *c.rng.pick(&["", " ", "x = ", "\n", "guess 5 for x1\n", "R + e ", "(", ") * ", " / g", ", h ", "é ", "[m->ft]", "-"]);
                let k = *c.rng.pick(&CONSTANTS);
                text += s;
                want.push((s.to_string(), None));
                text += k.0;
                want.push((String::new(), Some(table[k.0])));
                let t = *c.rng.pick(&[" ", "\n", ")", " * 2", "/3", ", ", "-g"]);
                text += t;
                want.push((t.to_string(), None));
            }
            let got = match cut(|| consts(&text)) {
                Ok(Ok(t)) => t,
                r => return c.fail("refused", format!("{text:?}: {:?}", r.map(|r| r.map_err(|e| e.to_string())))),
            };
            c.count("texts");
            c.seen(&text);
            let mut rest = got.as_str();
            let mut ok = true;
            for (s, v) in &want {
                match v {
                    None => match rest.strip_prefix(s.as_str()) {
                        Some(r) => rest = r,
                        None => { ok = false; break }
                    },
                    Some(v) => {
                        let wrapped = rest.starts_with('(');
                        let t = rest.strip_prefix('(').unwrap_or(rest);
                        let end = t.char_indices().find(|(i, ch)| !(ch.is_ascii_digit() || *ch == '.' || (*i == 0 && *ch == '-'))).map_or(t.len(), |p| p.0);
                        let digits = t[..end].trim_end_matches('.');
                        let end = digits.len();
                        ok = digits.parse::<f64>().is_ok_and(|x| close(x, *v, 1e-12));
                        rest = &t[end..];
                        if wrapped {
                            match rest.strip_prefix(')') {
                                Some(r) => rest = r,
                                None => ok = false,
                            }
                        }
                        if !ok { break }
                    }
                }
            }
            c.check(ok && rest.is_empty(), "text", || format!("{text:?} became {got:?}"));
        }
        _ => {
            // Names that are no constants
            let k = c.rng.pick(&CONSTANTS).0;
            let bad = match c.rng.below(5) {
                0 => format!("{k}{}", c.rng.pick(&["2", "x", "_", "_g", "0"])),
                1 => format!("#{}", c.rng.pick(&["nope", "r", "PI", "H", "x1", "c", "9"])),
                2 => k[..k.len() - 1].to_string() + "q",
                3 => k.to_ascii_uppercase(),
                _ => format!("#x{}", &k[1..]),
            };
            if known.contains(bad.as_str()) || bad.len() < 2 {
                return;
            }
            let program = format!("x = 2 * {bad} + {}", c.rng.range(1, 99));
            c.count("unknown constants");
            c.seen(&bad);
            let got = cut(|| consts(&program).is_err());
            c.check(got == Ok(true), "unknown", || format!("{program}: {:?}", consts(&program)));
            let p = program.clone();
            let got = cut(move || solve_with_preprocessors(&p, 1e-3, 50).map(|r| r.1.get("x").copied()).map_err(|e| e.to_string()));
            c.check(matches!(&got, Ok(Err(_))), "unknown-solved", || format!("{program}: {got:?}"));
        }
    }
}

type Quantities = BTreeMap<&'static str, BTreeMap<String, f64>>;

/// The units that one can write, composed as the documentation of the units says.
fn quantities() -> &'static Quantities {
    static Q: OnceLock<Quantities> = OnceLock::new();
    Q.get_or_init(|| {
        let mut q: Quantities = UNITS.iter().map(|(k, t)| (*k, t.iter().map(|(n, v)| (n.to_string(), *v)).collect())).collect();
        q.insert("SPRING FORCE", BTreeMap::new());
        let product = |q: &mut Quantities, to: &'static str, a: &str, b: &str| {
            let (x, y) = (q[a].clone(), q[b].clone());
            let t = q.get_mut(to).unwrap();
            for (n, v) in &x {
                for (m, w) in &y {
                    t.insert(format!("{n}-{m}"), v * w);
                    t.insert(format!("{m}-{n}"), v * w);
                }
            }
        };
        let ratio = |q: &mut Quantities, to: &'static str, a: &str, b: &str| {
            let (x, y) = (q[a].clone(), q[b].clone());
            let t = q.get_mut(to).unwrap();
            for (n, v) in &x {
                for (m, w) in &y {
                    t.insert(format!("{n}/{m}"), v / w);
                }
            }
        };
        let len = q["LENGTH"].clone();
        for (n, v) in &len {
            q.get_mut("AREA").unwrap().insert(format!("{n}^2"), v * v);
            q.get_mut("VOLUME").unwrap().insert(format!("{n}^3"), v * v * v);
        }
        product(&mut q, "VISCOSITY-DYNAMIC", "PRESSURE", "TIME");
        product(&mut q, "ENERGY", "FORCE", "LENGTH");
        ratio(&mut q, "VELOCITY", "LENGTH", "TIME");
        ratio(&mut q, "FREQUENCY", "NON DIMENSIONAL", "TIME");
        ratio(&mut q, "VOLUMETRIC FLOW", "VOLUME", "TIME");
        ratio(&mut q, "POWER", "ENERGY", "TIME");
        ratio(&mut q, "PRESSURE", "FORCE", "AREA");
        ratio(&mut q, "SPRING FORCE", "FORCE", "LENGTH");
        q
    })
}

/// How far the factor of a unit may be from the table: its last digits, and those in which publications differ.
fn slack(unit: &str) -> f64 {
    let part = |p: &str| match p {
        "quart" | "pint" | "oz" | "ozv" => 3e-5,
        "year" | "years" | "yr" => 3e-5,
        "Faraday" => 4e-4,
        "amu" | "knot" | "Reyn" | "psf" => 1e-5,
        "inH2O" | "in.H2O" | "ftH2O" | "slug" | "grain" => 4e-6,
        p if p.len() <= 3 && p.to_ascii_lowercase().ends_with("ev") => 8e-5,
        _ => 0.0,
    };
    3.0 * unit.split(['/', '-', '^']).map(|p| 1e-6 + part(p)).sum::<f64>()
}

/// Exactly one quantity must have both units.
fn model(a: &str, b: &str) -> Option<f64> {
    let mut found = quantities().values().filter_map(|t| Some(t.get(a)? / t.get(b)?));
    let f = found.next()?;
    found.next().is_none().then_some(f)
}

const ANCHORS: [(&str, &str, f64); 48] = [
    ("in", "cm", 2.54), ("ft", "m", 0.3048), ("mi", "ft", 5280.0), ("yd", "in", 36.0), ("lbm", "kg", 0.45359237), ("hr", "s", 3600.0),
    ("day", "min", 1440.0), ("N", "lbf", 0.224809), ("psi", "kPa", 6.894757), ("atm", "Pa", 101325.0), ("bar", "psi", 14.50377), ("J", "cal", 0.2388459),
    ("Btu", "J", 1055.056), ("kWh", "J", 3.6e6), ("hp", "W", 745.7), ("gal", "l", 3.785412), ("gal", "in^3", 231.0), ("ft^3", "gal", 7.480519),
    ("mph", "m/s", 0.44704), ("km/h", "m/s", 0.2777778), ("km/s", "m/s", 1000.0), ("mi/hr", "mph", 1.0), ("in^2", "ft^2", 1.0 / 144.0), ("acre", "ft^2", 43560.0),
    ("N-m", "J", 1.0), ("N-m", "lbf-ft", 0.7375621), ("m-N", "N-m", 1.0), ("lbf/in^2", "psi", 1.0), ("deg", "rad", 0.01745329), ("rev", "deg", 360.0),
    ("gpm", "l/min", 3.785412), ("torr", "Pa", 133.3224), ("m^3", "l", 1000.0), ("cm^3", "ml", 1.0), ("ft^3/min", "cfm", 1.0), ("J/s", "W", 1.0),
    ("Btu/hr", "W", 0.2930711), ("N/m", "lbf/in", 0.005710147), ("Pa-s", "poise", 10.0), ("N/m^2", "Pa", 1.0), ("slug", "lbm", 32.17405), ("stone", "lbm", 14.0),
    ("hectare", "acre", 2.471054), ("week", "hr", 168.0), ("K", "R", 1.8), ("kgf", "N", 9.80665), ("kg", "g", 1000.0), ("lbmol", "mol", 453.59237),
];

pub fn units(c: &mut Ctx) {
    let q = quantities();
    if c.case == 0 {
        for (a, b, v) in ANCHORS {
            let got = cut(|| convert(a, b).ok());
            c.check(matches!(got, Ok(Some(g)) if close(g, v, 5e-4)), "anchor", || format!("1 {a} is {got:?} {b}, not {v}"));
            c.seen(&(a, b));
        }
        // The units of the table, from or to the first one of its quantity
        for t in q.values() {
            let mut t = t.keys();
            let Some(first) = t.next() else { continue };
            for (i, unit) in t.enumerate() {
                if i % 4 != 0 && unit.contains(['/', '-', '^']) {
                    continue; // enough of the composed ones
                }
                let (a, b) = if i % 2 == 0 { (unit, first) } else { (first, unit) };
                let got = cut(|| convert(a, b).ok());
                let ok = match (&got, model(a, b)) {
                    (Ok(Some(x)), Some(y)) => close(*x, y, slack(a) + slack(b)),
                    (Ok(None), None) => true,
                    _ => false,
                };
                c.check(ok, "table", || format!("1 {a} is {got:?} {b}, not {:?}", model(a, b)));
                c.count("units of the table");
            }
        }
    }
    let names: Vec<&'static str> = q.keys().copied().collect();
    let quantity = match c.rng.below(3) {
        0 => *c.rng.pick(&names),
        _ => *c.rng.pick(&["LENGTH", "AREA", "VOLUME", "VELOCITY", "PRESSURE", "ENERGY", "POWER", "SPRING FORCE", "VOLUMETRIC FLOW",
            "VISCOSITY-DYNAMIC", "MASS", "TIME", "FORCE", "FREQUENCY"]),
    };
    let all: Vec<&String> = q[quantity].keys().collect();
    let unit = |c: &mut Ctx| (*c.rng.pick(&all)).clone();
    let (a, b, d) = (unit(c), unit(c), unit(c));
    let one = |a: &str, b: &str| {
        let (x, y) = (a.to_string(), b.to_string());
        cut(move || convert(&x, &y).ok())
    };
    match c.rng.below(10) {
        0..=3 => {
            let want = model(&a, &b);
            let ab = match one(&a, &b) {
                Err(p) => return c.fail("panic", format!("{a} -> {b}: {p}")),
                Ok(v) => v,
            };
            c.count(if want.is_some() { "conversions" } else { "ambiguous conversions" });
            c.seen(&(a.as_str(), b.as_str()));
            c.sample(quantity, || format!("{a} -> {b} is {ab:?}"));
            let ok = match (ab, want) {
                (Some(x), Some(y)) => close(x, y, slack(&a) + slack(&b)),
                (None, None) => true,
                _ => false,
            };
            if !c.check(ok, "factor", || format!("1 {a} is {ab:?} {b}, not {want:?}")) {
                return;
            }
            let ba = one(&b, &a);
            c.check(ba.as_ref().is_ok_and(|v| v.is_some() == ab.is_some()), "symmetric", || format!("{a} -> {b} is {ab:?}, {b} -> {a} is {ba:?}"));
            let Some(ab) = ab else { return };
            if let Ok(Some(ba)) = ba {
                c.check(close(ab * ba, 1.0, 1e-12), "inverse", || format!("{a} -> {b} is {ab}, {b} -> {a} is {ba}"));
            }
            if let (Ok(Some(bd)), Ok(Some(ad))) = (one(&b, &d), one(&a, &d)) {
                c.check(close(ab * bd, ad, 1e-12), "transitive", || format!("{a} -> {b} is {ab}, {b} -> {d} is {bd}, {a} -> {d} is {ad}"));
                c.count("chains");
            }
            if quantity == "LENGTH" {
                for (p, f) in [("^2", ab * ab), ("^3", ab * ab * ab)] {
                    let got = one(&format!("{a}{p}"), &format!("{b}{p}"));
                    c.check(matches!(got, Ok(Some(g)) if close(g, f, 1e-12)), "power", || format!("{a} -> {b} is {ab}, {a}{p} -> {b}{p} is {got:?}"));
                    c.count("powers");
                }
            }
        }
        4 => {
            // Units of different quantities, and words that are no units
            let other = *c.rng.pick(&names);
            let pool: Vec<&String> = q[other].keys().collect();
            let b = match c.rng.below(4) {
                0 => format!("{b}x"),
                1 => c.rng.pick(&["", "meters", "KG", "M", "lb", "furlongs", "nope", "^2", "/", "m/", "m^4", "m-m-m", "->"]).to_string(),
                _ => (*c.rng.pick(&pool)).clone(),
            };
            let want = model(&a, &b);
            let got = one(&a, &b);
            c.count(if want.is_some() { "conversions" } else { "impossible conversions" });
            c.seen(&(a.as_str(), b.as_str()));
            let ok = match (&got, want) {
                (Ok(Some(x)), Some(y)) => close(*x, y, slack(&a) + slack(&b)),
                (Ok(None), None) => true,
                _ => false,
            };
            c.check(ok, "impossible", || format!("1 {a} is {got:?} {b}, not {want:?}"));
            let token = |s: &str| !s.is_empty() && s.chars().all(|ch| ch.is_ascii_alphanumeric() || "_^/-".contains(ch));
            if want.is_none() && token(&a) && token(&b) && !a.contains("->") && !b.contains("->") {
                let program = format!("x = {} * [{a}->{b}]", c.rng.range(1, 99));
                let p = program.clone();
                let got = cut(move || solve_with_preprocessors(&p, 1e-3, 50).map(|r| r.1.get("x").copied()).map_err(|e| e.to_string()));
                c.check(matches!(&got, Ok(Err(_))), "impossible-solved", || format!("{program}: {got:?}"));
            }
        }
        5 => {
            // Composed units convert as their parts do
            let parts = *c.rng.pick(&[("LENGTH", '/', "TIME"), ("FORCE", '-', "LENGTH"), ("FORCE", '/', "AREA"), ("FORCE", '/', "LENGTH"), ("VOLUME", '/', "TIME"),
                ("ENERGY", '/', "TIME"), ("PRESSURE", '-', "TIME")]);
            let (k, l): (Vec<&String>, Vec<&String>) = (q[parts.0].keys().collect(), q[parts.2].keys().collect());
            let (a, b) = (c.rng.pick(&k).to_string(), c.rng.pick(&k).to_string());
            let (d, e) = (c.rng.pick(&l).to_string(), c.rng.pick(&l).to_string());
            let (x, y) = (format!("{a}{}{d}", parts.1), format!("{b}{}{e}", parts.1));
            let y = if parts.1 == '-' && c.rng.chance(0.5) { format!("{e}-{b}") } else { y };
            let (Ok(Some(f)), Ok(Some(g)), Ok(got)) = (one(&a, &b), one(&d, &e), one(&x, &y)) else { return };
            let Some(got) = got else {
                // The parts alone may be ambiguous in the composition
                return c.check(model(&x, &y).is_none(), "composed-refused", || format!("{x} -> {y}")).then_some(()).unwrap_or(());
            };
            let want = if parts.1 == '-' { f * g } else { f / g };
            c.count("composed conversions");
            c.seen(&(x.as_str(), y.as_str()));
            c.check(close(got, want, 1e-9), "composed", || format!("{a} -> {b} is {f}, {d} -> {e} is {g}, but {x} -> {y} is {got}"));
        }
        _ => {
            // In a text
            let mut env = Env::standard();
            let mut names = vec![];
            for _ in 0..6 {
                let quantity = *c.rng.pick(&["LENGTH", "AREA", "VOLUME", "PRESSURE", "ENERGY", "MASS", "TIME", "FORCE", "VELOCITY"]);
                let all: Vec<&String> = q[quantity].keys().collect();
                let (a, b) = (c.rng.pick(&all).to_string(), c.rng.pick(&all).to_string());
                if let Ok(Some(f)) = one(&a, &b) {
                    if (1e-12..1e12).contains(&f) {
                        env.vals.insert(format!("[{a}->{b}]"), f);
                        names.push(format!("[{a}->{b}]"));
                    }
                }
            }
            if !names.is_empty() {
                in_text(c, &names, &env, conversions, "conversions");
            }
        }
    }
}
