//! M03: an index outside a matrix reaches no element of it.
use gmatlib::Matrix;
use vmon::{cut, Ctx};

fn outside(ctx: &mut Ctx, n: usize) -> usize {
    match ctx.rng.below(6) {
        0 => n,
        1 => n + 1,
        2 => usize::MAX,
        3 => usize::MAX / 2 + ctx.rng.below(4),
        4 => 1usize << ctx.rng.us(20, 62),
        _ => n + ctx.rng.below(9),
    }
}

pub fn case(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.us(1, 6), ctx.rng.us(1, 6));
    let a: Vec<i64> = (0..r * c).map(|i| 1000 + i as i64).collect();
    let mut x = Matrix::from_vec(c, a.clone()).expect("a full matrix");
    let (mut i, mut j) = (ctx.rng.below(r), ctx.rng.below(c));
    let inside = ctx.rng.chance(0.25);
    if !inside {
        let which = ctx.rng.below(4);
        if which != 0 {
            j = outside(ctx, c);
        }
        if which != 1 && which != 2 {
            i = outside(ctx, r);
        }
    }
    let ok_i = i < r;
    let ok = ok_i && j < c;
    let aliases = !ok && i.checked_mul(c).and_then(|k| k.checked_add(j)).is_some_and(|k| k < r * c);
    ctx.seen(&(r, c, i, j));
    ctx.count(if ok { "inside" } else if aliases { "outside, lands on another element" } else { "outside" });
    let at = format!("({i}, {j}) of a {r} x {c} matrix");
    ctx.sample(if ok { "inside" } else { "outside" }, || at.clone());

    let got = cut(|| x[(i, j)]);
    if ok {
        ctx.check(got == Ok(a[i * c + j]), "read inside", || format!("{at}: {got:?}"));
    } else {
        ctx.check(got.is_err(), "read outside", || format!("{at}: {got:?}"));
    }

    let done = cut(|| x[(i, j)] = 7);
    let mut want = a.clone();
    if ok {
        want[i * c + j] = 7;
    }
    let now: Vec<i64> = x.iter().copied().collect();
    ctx.check(done.is_ok() == ok, if ok { "write inside" } else { "write outside" }, || format!("{at}: {done:?}"));
    ctx.check(now == want, "a write changed another element", || format!("{at}: {now:?}"));

    // row operations with a row that does not exist
    let fresh = || Matrix::from_vec(c, a.clone()).expect("a full matrix");
    let p = ctx.rng.below(r);
    if !ok_i {
        let ops: [(&str, fn(&mut Matrix<i64>, usize, usize)); 6] = [
            ("swap first", |m, p, i| m.inplace_row_swap(i, p)),
            ("swap second", |m, p, i| m.inplace_row_swap(p, i)),
            ("scale", |m, _, i| m.inplace_row_scale(i, 3)),
            ("add to", |m, p, i| m.inplace_row_add(i, p)),
            ("add from", |m, p, i| m.inplace_row_add(p, i)),
            ("scaled add from", |m, p, i| m.inplace_scaled_row_add(p, i, 2)),
        ];
        for (name, op) in ops {
            let mut m = fresh();
            let done = cut(|| op(&mut m, p, i));
            let now: Vec<i64> = m.iter().copied().collect();
            ctx.check(done.is_err() && now == a, &format!("row operation outside: {name}"), || format!("rows {p} and {i} of {r} x {c}: {done:?}, {now:?}"));
        }
    }

    // parts of a matrix that reach outside of it
    let (r2, c2) = (r - 1 + ctx.rng.below(3), c - 1 + ctx.rng.below(3));
    let (r1, c1) = (ctx.rng.below(r), ctx.rng.below(c));
    let part = cut(|| fresh().subset(r1, c1, r2, c2));
    let fits = r2 < r && c2 < c;
    ctx.check(part.is_ok() == fits, "part of a matrix", || format!("({r1}, {c1}) to ({r2}, {c2}) of {r} x {c}: {part:?}"));
    if let Ok(m) = part {
        let good = (r1..=r2.min(r - 1)).all(|i| (c1..=c2.min(c - 1)).all(|j| m[(i - r1, j - c1)] == a[i * c + j]));
        ctx.check(good, "elements of a part", || format!("({r1}, {c1}) to ({r2}, {c2}) of {r} x {c}: {m:?}"));
    }
}
