//! M02: an inverse is the inverse, and a matrix without one is refused.
use gmatlib::Matrix;
use vmon::{cut, invert_dense, Ctx};

type M = Vec<Vec<f64>>;

fn flat(a: &M) -> Vec<f64> {
    a.iter().flatten().copied().collect()
}

fn build(a: &M) -> Matrix<f64> {
    Matrix::from_vec(a[0].len(), flat(a)).expect("a full matrix")
}

fn ints(ctx: &mut Ctx, r: usize, c: usize, mag: i64) -> M {
    (0..r).map(|_| (0..c).map(|_| ctx.rng.range(-mag, mag) as f64).collect()).collect()
}

fn family(ctx: &mut Ctx, n: usize) -> (&'static str, M) {
    match ctx.rng.below(9) {
        0 => ("integers", ints(ctx, n, n, 9)),
        1 => ("sparse", {
            let mut a = ints(ctx, n, n, 5);
            for v in a.iter_mut().flatten() {
                if ctx.rng.chance(0.5) { *v = 0.0 }
            }
            a
        }),
        2 => ("permutation", {
            let mut p: Vec<usize> = (0..n).collect();
            ctx.rng.shuffle(&mut p);
            let mut a = vec![vec![0.0; n]; n];
            for (i, &j) in p.iter().enumerate() {
                a[i][j] = *ctx.rng.pick(&[1.0, -1.0, 2.0, 0.5, 7.0, -0.25]);
            }
            a
        }),
        3 => ("zero diagonal", {
            let mut a = ints(ctx, n, n, 6);
            for (i, r) in a.iter_mut().enumerate() { r[i] = 0.0 }
            a
        }),
        4 => ("triangular", {
            let mut a = ints(ctx, n, n, 4);
            let upper = ctx.rng.chance(0.5);
            for i in 0..n {
                for j in 0..n {
                    if i != j && (i < j) != upper { a[i][j] = 0.0 }
                    if i == j && a[i][j] == 0.0 { a[i][j] = 3.0 }
                }
            }
            a
        }),
        5 => ("reals", (0..n).map(|_| (0..n).map(|_| ctx.rng.f(-1.0, 1.0)).collect()).collect()),
        6 => ("scaled rows", (0..n).map(|_| {
            let s = 10f64.powi(ctx.rng.range(-4, 4) as i32);
            (0..n).map(|_| ctx.rng.f(-1.0, 1.0) * s).collect()
        }).collect()),
        7 => ("leading zero block", {
            let mut a = ints(ctx, n, n, 6);
            let k = ctx.rng.us(1, n);
            for i in 0..k { for j in 0..k { if i + j < k { a[i][j] = 0.0 } } }
            a
        }),
        _ => ("dominant diagonal", {
            let mut a = ints(ctx, n, n, 3);
            for (i, r) in a.iter_mut().enumerate() { r[i] += 4.0 * n as f64 }
            a
        }),
    }
}

/// Matrices whose singularity does not hang on rounding.
fn singular(ctx: &mut Ctx, n: usize) -> (&'static str, M) {
    let mut a = ints(ctx, n, n, 7);
    let (p, q) = (ctx.rng.below(n), ctx.rng.below(n));
    if n == 1 {
        return ("zero", vec![vec![0.0]]);
    }
    let q = if p == q { (p + 1) % n } else { q };
    match ctx.rng.below(if n <= 4 { 6 } else { 4 }) {
        0 => { a[p] = vec![0.0; n]; ("a zero row", a) }
        1 => { for r in a.iter_mut() { r[p] = 0.0 } ("a zero column", a) }
        2 => { a[p] = a[q].clone(); ("two equal rows", a) }
        3 => ("zero", vec![vec![0.0; n]; n]),
        4 => { for r in a.iter_mut() { r[p] = r[q] } ("two equal columns", a) }
        _ => {
            let s = ctx.rng.range(-3, 3) as f64;
            let t = ctx.rng.below(n);
            let w = if t == p { 0.0 } else { ctx.rng.range(-2, 2) as f64 };
            a[p] = (0..n).map(|j| s * a[q][j] + w * a[t][j]).collect();
            ("dependent rows", a)
        }
    }
}

pub fn case(ctx: &mut Ctx) {
    let big = if ctx.thorough { 20 } else { 12 };
    let n = match ctx.rng.below(10) {
        0 => 1,
        1 => 2,
        2 | 3 => 3,
        4 | 5 => 4,
        6 => ctx.rng.us(8, big),
        _ => ctx.rng.us(5, 8),
    };
    match ctx.rng.below(10) {
        0 => {
            let mut c = ctx.rng.us(1, 6);
            if c == n { c += 1 }
            let a = ints(ctx, n, c, 5);
            let mut x = build(&a);
            let got = cut(|| x.try_inplace_invert().is_ok());
            ctx.seen(&("shape", n, c));
            ctx.check(got == Ok(false), "inverts a matrix that is not square", || format!("{a:?}: {got:?}"));
            ctx.check(x == build(&a), "a refused inversion changed the matrix", || format!("{a:?} became {x:?}"));
        }
        1 | 2 => {
            let (kind, a) = singular(ctx, n);
            let mut x = build(&a);
            let got = cut(|| x.try_inplace_invert().is_ok());
            ctx.count(&format!("singular: {kind}"));
            ctx.seen(&(kind, n, flat(&a).iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            ctx.sample(kind, || format!("{a:?}"));
            if ctx.check(got == Ok(false), "inverts a singular matrix", || format!("{kind}, {n} x {n}: {a:?}: {got:?} {x:?}")) {
                ctx.check(x == build(&a), "a refused inversion changed the matrix", || format!("{a:?} became {x:?}"));
            }
        }
        _ => {
            let (mut kind, mut a) = family(ctx, n);
            if ctx.rng.chance(0.1) {
                // Units may be very small or very large
                kind = "other units";
                let s = 10f64.powi(ctx.rng.range(-50, 50) as i32);
                a.iter_mut().flatten().for_each(|v| *v *= s);
            }
            let Some((inv, cond)) = invert_dense(&a) else { return };
            let det_scale: f64 = if n <= 4 { 1e5 } else { 1e8 };
            if cond > det_scale {
                return;
            }
            let mut x = build(&a);
            let got = cut(|| x.try_inplace_invert().map_err(|e| e.to_string()));
            ctx.count(&format!("{kind}, {}", if n <= 4 { format!("n = {n}") } else { "n > 4".into() }));
            ctx.seen(&(kind, n, flat(&a).iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            ctx.sample(kind, || format!("{n} x {n}, condition {cond:.1e}: {a:?}"));
            if !ctx.check(got == Ok(Ok(())), &format!("refuses an invertible matrix, n {}", if n > 4 { 5 } else { n }),
                || format!("{kind}, {n} x {n}, condition {cond:.1e}: {a:?}: {got:?}")) {
                return;
            }
            let size = inv.iter().flatten().fold(0.0f64, |s, v| s.max(v.abs()));
            // rounding is amplified by the condition number at worst
            let tol = 1e-11 * cond * n as f64 * size;
            let worst = (0..n).flat_map(|i| (0..n).map(move |j| (i, j)))
                .map(|(i, j)| (x[(i, j)] - inv[i][j]).abs())
                .fold(0.0f64, |s, v| if v.is_nan() { f64::INFINITY } else { s.max(v) });
            let shape = x.get_rows() == n && x.get_cols() == n;
            ctx.check(shape && worst <= tol, &format!("wrong inverse, n {}", if n > 4 { 5 } else { n }),
                || format!("{kind}, {n} x {n}: {a:?}: off by {worst:e} (allowed {tol:e}), got {x:?}"));
        }
    }
}
