//! M04: histories of calls through the C interface against a shadow of every matrix.
//! Runs under AddressSanitizer; a counting allocator sees what is not given back.
use gmatlib::ffi::*;
use std::ffi::{c_uint, c_void};
use vmon::{alloc::held, cut, Ctx};

struct Live {
    p: *mut c_void,
    r: usize,
    c: usize,
    v: Vec<f64>,
}

impl Live {
    fn new(p: *mut c_void, r: usize, c: usize, v: Vec<f64>) -> Live {
        Live { p, r, c, v }
    }
}

const MAX: usize = 5;

fn idx(ctx: &mut Ctx, n: usize) -> usize {
    if ctx.rng.chance(0.25) {
        *ctx.rng.pick(&[n, n + 1, n + 7, u32::MAX as usize, 1 << 31])
    } else {
        ctx.rng.below(n.max(1))
    }
}

fn matches(ctx: &mut Ctx, m: &Live, log: &str) -> bool {
    let mut bad = None;
    for i in 0..m.r {
        for j in 0..m.c {
            let got = index_double_matrix(m.p, i as c_uint, j as c_uint);
            if got != m.v[i * m.c + j] {
                bad = Some((i, j, got));
            }
        }
    }
    // one past the end in both directions must not be there
    let edge = [(m.r, 0), (0, m.c)];
    let shape = edge.iter().all(|&(i, j)| index_double_matrix(m.p, i as c_uint, j as c_uint) == f64::MIN);
    ctx.check(bad.is_none() && shape, "contents through the interface", || {
        format!("{log}: a {} x {} matrix should hold {:?}, at {bad:?}, edges closed: {shape}", m.r, m.c, m.v)
    })
}

fn history(ctx: &mut Ctx) {
    let mut live: Vec<Live> = vec![];
    let mut log = String::new();
    let steps = ctx.rng.us(6, 30);
    for _ in 0..steps {
        let op = if live.is_empty() { ctx.rng.below(2) } else { ctx.rng.below(17) };
        let k = ctx.rng.below(live.len());
        let k2 = ctx.rng.below(live.len());
        let mut born: Option<(*mut c_void, Option<Live>)> = None;
        let mut code: Option<(bool, bool)> = None; // (succeeded, should have)
        match op {
            0 => {
                let (r, c) = (ctx.rng.us(1, MAX), ctx.rng.us(1, MAX));
                log += &format!("new({r}, {c}); ");
                let p = new_double_matrix(r as c_uint, c as c_uint);
                // fill it with distinct values
                let mut v = vec![0.0; r * c];
                let fill = ctx.rng.chance(0.8) && !p.is_null();
                if fill {
                    for i in 0..r {
                        for j in 0..c {
                            v[i * c + j] = ctx.rng.range(-9, 9) as f64;
                            let done = index_mut_double_matrix(p, i as c_uint, j as c_uint, v[i * c + j]);
                            ctx.check(done == 1, "a write inside is refused", || format!("{log} ({i}, {j})"));
                        }
                    }
                }
                born = Some((p, Some(Live::new(p, r, c, v))));
            }
            1 => {
                let n = ctx.rng.us(1, MAX);
                log += &format!("identity({n}); ");
                let p = new_double_identity_matrix(n as c_uint);
                let v = (0..n * n).map(|i| (i / n == i % n) as i32 as f64).collect();
                born = Some((p, Some(Live::new(p, n, n, v))));
            }
            2 => {
                log += "new(huge); ";
                let p = new_double_matrix(u32::MAX, u32::MAX);
                born = Some((p, None));
            }
            3 => {
                let m = &mut live[k];
                let (a, b) = (idx(ctx, m.r), idx(ctx, m.r));
                log += &format!("row_swap(#{k}, {a}, {b}); ");
                let ok = inplace_row_swap(m.p, a as c_uint, b as c_uint) == 1;
                let should = a < m.r && b < m.r;
                if should {
                    for j in 0..m.c { m.v.swap(a * m.c + j, b * m.c + j) }
                }
                code = Some((ok, should));
            }
            4 => {
                let m = &mut live[k];
                let a = idx(ctx, m.r);
                let s = ctx.rng.range(-2, 2) as f64;
                log += &format!("row_scale(#{k}, {a}, {s}); ");
                let ok = inplace_row_scale(m.p, a as c_uint, s) == 1;
                if a < m.r {
                    for j in 0..m.c { m.v[a * m.c + j] *= s }
                }
                code = Some((ok, a < m.r));
            }
            5 => {
                let m = &mut live[k];
                let s = *ctx.rng.pick(&[-1.0, 0.5, 2.0]);
                log += &format!("scale(#{k}, {s}); ");
                let ok = inplace_scale(m.p, s) == 1;
                for v in m.v.iter_mut() { *v *= s }
                code = Some((ok, true));
            }
            6 | 7 => {
                let m = &mut live[k];
                let (a, b) = (idx(ctx, m.r), idx(ctx, m.r));
                let s = if op == 6 { 1.0 } else { *ctx.rng.pick(&[-1.0, 0.0, 0.5, 2.0]) };
                log += &format!("row_add(#{k}, {a}, {b}, {s}); ");
                let ok = if op == 6 {
                    inplace_row_add(m.p, a as c_uint, b as c_uint)
                } else {
                    inplace_scaled_row_add(m.p, a as c_uint, b as c_uint, s)
                } == 1;
                let should = a < m.r && b < m.r;
                if should {
                    for j in 0..m.c {
                        let v = m.v[b * m.c + j] * s;
                        m.v[a * m.c + j] += v;
                    }
                }
                code = Some((ok, should));
            }
            8 => {
                let (a, b) = (&live[k], &live[k2]);
                log += &format!("multiply(#{k}, #{k2}); ");
                let p = multiply_matrix(a.p, b.p);
                let want = (a.c == b.r).then(|| {
                    let mut v = vec![0.0; a.r * b.c];
                    for i in 0..a.r { for j in 0..b.c { for x in 0..a.c { v[i * b.c + j] += a.v[i * a.c + x] * b.v[x * b.c + j] } } }
                    Live::new(p, a.r, b.c, v)
                });
                born = Some((p, want));
            }
            9 => {
                let (a, b) = (&live[k], &live[k2]);
                log += &format!("augment(#{k}, #{k2}); ");
                let p = augment_with(a.p, b.p);
                let want = (a.r == b.r).then(|| {
                    let v = (0..a.r).flat_map(|i| a.v[i * a.c..(i + 1) * a.c].iter().chain(&b.v[i * b.c..(i + 1) * b.c]).copied().collect::<Vec<_>>()).collect();
                    Live::new(p, a.r, a.c + b.c, v)
                });
                born = Some((p, want));
            }
            10 => {
                let m = &live[k];
                let (r1, c1) = (ctx.rng.below(m.r), ctx.rng.below(m.c));
                let (r2, c2) = (ctx.rng.us(r1, m.r), ctx.rng.us(c1, m.c));
                log += &format!("subset(#{k}, {r1}, {c1}, {r2}, {c2}); ");
                let p = subset(m.p, r1 as c_uint, c1 as c_uint, r2 as c_uint, c2 as c_uint);
                let want = (r2 < m.r && c2 < m.c).then(|| {
                    let v = (r1..=r2).flat_map(|i| m.v[i * m.c + c1..=i * m.c + c2].to_vec()).collect();
                    Live::new(p, r2 - r1 + 1, c2 - c1 + 1, v)
                });
                born = Some((p, want));
            }
            11 => {
                let m = &live[k];
                log += &format!("trace(#{k}); ");
                let t = trace(m.p);
                let good = if m.r == m.c { t == (0..m.r).map(|i| m.v[i * m.c + i]).sum::<f64>() } else { t.is_nan() || t == f64::MIN };
                ctx.check(good, "trace through the interface", || format!("{log}: {t}"));
            }
            12 => {
                let m = &live[k];
                log += &format!("transpose(#{k}); ");
                let p = transpose(m.p);
                let v = (0..m.c).flat_map(|j| (0..m.r).map(|i| m.v[i * m.c + j]).collect::<Vec<_>>()).collect();
                let (r, c) = (m.c, m.r);
                born = Some((p, Some(Live::new(p, r, c, v))));
            }
            13 => {
                let m = &mut live[k];
                log += &format!("invert(#{k}); ");
                let before = m.v.clone();
                let ok = try_inplace_invert(m.p) == c_uint::MAX;
                let now: Vec<f64> = (0..m.r * m.c).map(|x| index_double_matrix(m.p, (x / m.c) as c_uint, (x % m.c) as c_uint)).collect();
                if ok {
                    // values are judged by M02, here: only a square matrix, and it is the inverse
                    let n = m.r;
                    let rows: Vec<Vec<f64>> = before.chunks(m.c).map(|r| r.to_vec()).collect();
                    let fine = m.r == m.c && match vmon::invert_dense(&rows) {
                        Some((inv, cond)) if cond < 1e6 => {
                            let size = inv.iter().flatten().fold(0.0f64, |s, v| s.max(v.abs()));
                            (0..n * n).all(|x| (now[x] - inv[x / n][x % n]).abs() <= 1e-8 * size.max(1e-300) * cond.max(1.0))
                        }
                        _ => true,
                    };
                    // A row or column of zeros stays one throughout
                    let zeros = (0..m.r).any(|i| rows[i].iter().all(|v| *v == 0.0)) || (0..m.c).any(|j| rows.iter().all(|r| r[j] == 0.0));
                    ctx.check(!zeros, "a singular matrix counts as inverted", || format!("{log}: {before:?} became {now:?}"));
                    ctx.check(fine, "inverse through the interface", || format!("{log}: {before:?} became {now:?}"));
                    m.v = now;
                } else {
                    ctx.check(now == before, "a failed inversion changed the matrix", || format!("{log}: {before:?} became {now:?}"));
                }
                if m.v.iter().any(|v| !v.is_finite() || v.abs() > 1e12) {
                    let m = live.swap_remove(k);
                    free_double_matrix(m.p);
                    log += "freed; ";
                    continue;
                }
            }
            14 => {
                let m = &mut live[k];
                let (i, j) = (idx(ctx, m.r), idx(ctx, m.c));
                let val = ctx.rng.range(-9, 9) as f64;
                log += &format!("write(#{k}, {i}, {j}, {val}); ");
                let ok = index_mut_double_matrix(m.p, i as c_uint, j as c_uint, val) == 1;
                let should = i < m.r && j < m.c;
                let read = index_double_matrix(m.p, i as c_uint, j as c_uint);
                if should {
                    m.v[i * m.c + j] = val;
                }
                let good = if should { read == val } else { read == f64::MIN };
                ctx.check(good, "an element through the interface", || format!("{log}: {read}"));
                code = Some((ok, should));
            }
            15 => {
                let m = &live[k];
                log += &format!("clone(#{k}); ");
                let p = clone_double_matrix(m.p);
                let copy = Live::new(p, m.r, m.c, m.v.clone());
                born = Some((p, Some(copy)));
            }
            _ => {
                log += &format!("free(#{k}); ");
                let m = live.swap_remove(k);
                free_double_matrix(m.p);
                ctx.count("freed");
                continue;
            }
        }
        ctx.count("calls");
        if let Some((ok, should)) = code {
            ctx.count(if should { "succeeding calls" } else { "failing calls" });
            if !ctx.check(ok == should, "what a call reports", || format!("{log}: reports {ok}")) {
                break;
            }
        }
        match born {
            Some((p, Some(m))) => {
                if !ctx.check(!p.is_null(), "a call that should give a matrix gives none", || log.clone()) {
                    break;
                }
                if m.v.iter().all(|v| v.is_finite() && v.abs() < 1e12) && live.len() < 6 {
                    live.push(m);
                } else {
                    free_double_matrix(p);
                }
            }
            Some((p, None)) => {
                ctx.count("failing calls");
                if !ctx.check(p.is_null(), "a call that should fail gives a matrix", || log.clone()) {
                    break;
                }
            }
            None => {}
        }
        ctx.seen(&(op, live.iter().map(|m| (m.r, m.c)).collect::<Vec<_>>()));
        // every matrix that is alive is what it should be, also those not involved
        let good = (0..live.len()).all(|i| matches(ctx, &live[i], &log));
        if !good {
            break;
        }
        for m in live.iter_mut() {
            if m.v.iter().any(|v| v.abs() > 1e9) {
                inplace_scale(m.p, 0.0);
                for v in m.v.iter_mut() { *v *= 0.0 }
            }
        }
    }
    for m in live {
        free_double_matrix(m.p);
        ctx.count("freed");
    }
    ctx.sample("history", || log.clone());
}

/// Values of every kind go in and out unchanged, also those that are not finite or mean something elsewhere.
fn special(ctx: &mut Ctx) {
    let (r, c) = if ctx.rng.chance(0.6) { let n = ctx.rng.us(1, MAX); (n, n) } else { (ctx.rng.us(1, MAX), ctx.rng.us(1, MAX)) };
    let p = new_double_matrix(r as c_uint, c as c_uint);
    if !ctx.check(!p.is_null(), "a call that should give a matrix gives none", || format!("new({r}, {c})")) {
        return;
    }
    let kinds = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN, f64::MAX, -0.0, 5e-324, -1e-310, f64::MIN_POSITIVE, 1e308, 0.1, -7.0, 0.0];
    let rare = ctx.rng.f(0.0, 1.0);
    let mut v = vec![0.0; r * c];
    for i in 0..r {
        for j in 0..c {
            v[i * c + j] = if ctx.rng.chance(rare) { *ctx.rng.pick(&kinds) } else { ctx.rng.range(-9, 9) as f64 };
            let done = index_mut_double_matrix(p, i as c_uint, j as c_uint, v[i * c + j]);
            ctx.check(done == 1, "a write inside is refused", || format!("({i}, {j}) of {v:?}"));
        }
    }
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() || a == 0.0 && b == 0.0;
    let holds = |ctx: &mut Ctx, p: *mut c_void, r: usize, c: usize, want: &[f64], how: &str| {
        let got: Vec<f64> = (0..r * c).map(|x| index_double_matrix(p, (x / c) as c_uint, (x % c) as c_uint)).collect();
        ctx.check(!p.is_null() && got.iter().zip(want).all(|(a, b)| same(*a, *b)), "special values through the interface", || {
            format!("{how} of a {r} x {c} matrix: {got:?}, should be {want:?}")
        });
    };
    holds(ctx, p, r, c, &v, "contents");
    let q = clone_double_matrix(p);
    holds(ctx, q, r, c, &v, "clone");
    let t = transpose(p);
    let tv: Vec<f64> = (0..c).flat_map(|j| (0..r).map(|i| v[i * c + j]).collect::<Vec<_>>()).collect();
    holds(ctx, t, c, r, &tv, "transpose");
    let s = subset(p, 0, 0, r as c_uint - 1, c as c_uint - 1);
    holds(ctx, s, r, c, &v, "subset");
    let g = augment_with(p, q);
    let gv: Vec<f64> = (0..r).flat_map(|i| [&v[i * c..i * c + c], &v[i * c..i * c + c]].concat()).collect();
    holds(ctx, g, r, 2 * c, &gv, "augment");
    if r == c {
        let (got, want) = (trace(p), (0..r).map(|i| v[i * c + i]).sum::<f64>());
        // The order of a sum makes a difference where it overflows or rounds
        let fine = same(got, want) || {
            let backwards = (0..r).rev().map(|i| v[i * c + i]).sum::<f64>();
            same(got, backwards) || (got - want).abs() <= 1e-12 * (0..r).map(|i| v[i * c + i].abs()).fold(0.0, f64::max)
        };
        ctx.check(fine, "trace through the interface", || format!("diagonal of {v:?}: {got}, should be {want}"));
    }
    // Scaling
    let k = *ctx.rng.pick(&[2.0, -1.0, 0.5, f64::INFINITY, f64::NAN, 1e200]);
    let done = inplace_scale(q, k);
    let kv: Vec<f64> = v.iter().map(|x| x * k).collect();
    ctx.check(done == 1, "what a call reports", || format!("inplace_scale({k}) of {v:?}"));
    holds(ctx, q, r, c, &kv, "multiple");
    let row = ctx.rng.below(r);
    let done = inplace_row_scale(s, row as c_uint, k);
    let rv: Vec<f64> = v.iter().enumerate().map(|(x, y)| if x / c == row { y * k } else { *y }).collect();
    ctx.check(done == 1, "what a call reports", || format!("inplace_row_scale({row}, {k}) of {v:?}"));
    holds(ctx, s, r, c, &rv, "scaled row");
    // ... and whether it can be inverted or not, it is not lost
    let ok = try_inplace_invert(p) == c_uint::MAX;
    if !ok {
        holds(ctx, p, r, c, &v, "refused inversion");
    }
    ctx.check(!ok || r == c, "a matrix that is not square counts as inverted", || format!("{r} x {c}: {v:?}"));
    for m in [p, q, t, s, g] {
        free_double_matrix(m);
    }
    ctx.count("special values");
    ctx.seen(&("special", r, c, (rare * 4.0) as usize));
}

pub fn case(ctx: &mut Ctx) {
    if ctx.rng.chance(0.15) {
        return special(ctx);
    }
    // The same history three times: what every repetition keeps is lost.
    let rng = ctx.rng.clone();
    let mut kept = vec![];
    for _ in 0..4 {
        ctx.rng = rng.clone();
        let mut quiet = Vec::with_capacity(0);
        std::mem::swap(&mut quiet, &mut kept);
        let before = held();
        let r = cut(|| replayable(&rng));
        let after = held();
        std::mem::swap(&mut quiet, &mut kept);
        kept.push(after.1 - before.1);
        if let Err(e) = r {
            ctx.fail("a call does not contain its failure", e);
            return;
        }
    }
    ctx.check(!kept[1..].iter().all(|&k| k > 0), "memory is not given back", || format!("blocks kept by each repetition of a history: {kept:?}"));
    ctx.check(!kept[1..].iter().all(|&k| k < 0), "memory is given back twice", || format!("blocks kept by each repetition of a history: {kept:?}"));
    ctx.rng = rng;
    history(ctx);
}

/// The history without its record, so that only the matrices use memory.
fn replayable(rng: &vmon::Rng) {
    let mut ctx = Ctx::detached(rng.clone());
    history(&mut ctx);
}
