//! M01: matrix operations agree with the textbook definition over exact numbers.
use gmatlib::{col_vec, row_vec, Element, Matrix};
use vmon::{cut, Ctx};

/// The reference: rows of exact integers.
#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub r: usize,
    pub c: usize,
    pub v: Vec<Vec<i128>>,
}

impl Ref {
    fn random(ctx: &mut Ctx, r: usize, c: usize, mag: i64) -> Ref {
        let sparse = ctx.rng.chance(0.2);
        let v = (0..r).map(|_| (0..c).map(|_| {
            if sparse && ctx.rng.chance(0.6) { 0 } else { ctx.rng.range(-mag, mag) as i128 }
        }).collect()).collect();
        Ref { r, c, v }
    }
    fn flat(&self) -> Vec<i128> {
        self.v.iter().flatten().copied().collect()
    }
    fn zip(&self, o: &Ref, f: impl Fn(i128, i128) -> i128) -> Ref {
        Ref { r: self.r, c: self.c, v: (0..self.r).map(|i| (0..self.c).map(|j| f(self.v[i][j], o.v[i][j])).collect()).collect() }
    }
    fn mul(&self, o: &Ref) -> Ref {
        Ref { r: self.r, c: o.c, v: (0..self.r).map(|i| (0..o.c).map(|j| (0..self.c).map(|k| self.v[i][k] * o.v[k][j]).sum()).collect()).collect() }
    }
    fn t(&self) -> Ref {
        Ref { r: self.c, c: self.r, v: (0..self.c).map(|j| (0..self.r).map(|i| self.v[i][j]).collect()).collect() }
    }
    fn max(&self) -> i128 {
        self.v.iter().flatten().map(|x| x.abs()).max().unwrap_or(0)
    }
}

trait Num: Element<Self> + PartialEq + std::panic::UnwindSafe + 'static {
    const NAME: &'static str;
    /// Largest magnitude of an entry that operations may produce exactly.
    const LIMIT: i128;
    const MAG: i64;
    fn of(x: i128) -> Self;
}
macro_rules! num {
    ($t:ty, $l:expr, $m:expr) => {
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const LIMIT: i128 = $l;
            const MAG: i64 = $m;
            fn of(x: i128) -> Self {
                x as $t
            }
        }
    };
}
num!(f64, 1 << 52, 9);
num!(f32, 1 << 23, 9);
num!(i8, 127, 3);
num!(i16, 32767, 9);
num!(i32, (1 << 31) - 1, 9);
num!(i64, 1 << 62, 9);

fn make<T: Num>(a: &Ref) -> Matrix<T> {
    if a.c == 0 {
        return Matrix::new(a.r, 0);
    }
    Matrix::from_vec(a.c, a.flat().into_iter().map(T::of).collect()).expect("a full matrix")
}

fn same<T: Num>(m: &Matrix<T>, a: &Ref) -> bool {
    m.get_rows() == a.r
        && m.get_cols() == a.c
        && m.iter().copied().collect::<Vec<T>>() == a.flat().into_iter().map(T::of).collect::<Vec<T>>()
        && (0..a.r).all(|i| (0..a.c).all(|j| m[(i, j)] == T::of(a.v[i][j])))
}

fn expect<T: Num>(ctx: &mut Ctx, op: &str, got: Result<Matrix<T>, String>, want: &Ref, args: &str) {
    let ok = matches!(&got, Ok(m) if same(m, want));
    ctx.seen(&(op, T::NAME, want.r, want.c, want.flat()));
    ctx.count(op);
    ctx.check(ok, &format!("{op}<{}>", T::NAME), || format!("{op} of {args}: got {:?}, want {:?}", got.map(|m| format!("{m:?}")), want.v));
}

fn refuse<R: std::fmt::Debug>(ctx: &mut Ctx, op: &str, got: Result<Option<R>, String>, args: &str) {
    // a panic or an error both refuse; a value does not
    let ok = !matches!(&got, Ok(Some(_)));
    ctx.count("refused");
    ctx.check(ok, &format!("{op} accepts shapes that do not fit"), || format!("{op} of {args}: got {got:?}"));
}

fn binary<T: Num>(ctx: &mut Ctx, a: &Ref, b: &Ref) {
    let args = format!("{:?} and {:?} ({})", a.v, b.v, T::NAME);
    let (x, y): (Matrix<T>, Matrix<T>) = (make(a), make(b));

    // sums and differences, in all spellings
    if a.r == b.r && a.c == b.c {
        let sum = a.zip(b, |p, q| p + q);
        let dif = a.zip(b, |p, q| p - q);
        if sum.max() <= T::LIMIT && dif.max() <= T::LIMIT {
            expect(ctx, "&a + &b", cut(|| &x + &y), &sum, &args);
            expect(ctx, "a + b", cut(|| x.clone() + y.clone()), &sum, &args);
            expect(ctx, "a + &b", cut(|| x.clone() + &y), &sum, &args);
            expect(ctx, "&a + b", cut(|| &x + y.clone()), &sum, &args);
            expect(ctx, "a += b", cut(|| { let mut z = x.clone(); z += y.clone(); z }), &sum, &args);
            expect(ctx, "&a - &b", cut(|| &x - &y), &dif, &args);
            expect(ctx, "a - b", cut(|| x.clone() - y.clone()), &dif, &args);
            expect(ctx, "a - &b", cut(|| x.clone() - &y), &dif, &args);
            expect(ctx, "&a - b", cut(|| &x - y.clone()), &dif, &args);
            expect(ctx, "a -= b", cut(|| { let mut z = x.clone(); z -= y.clone(); z }), &dif, &args);
        }
        let eq = cut(|| x == y);
        ctx.check(eq == Ok(a == b), "a == b", || format!("a == b of {args}: {eq:?}"));
    } else {
        refuse(ctx, "&a + &b", cut(|| Some(&x + &y)), &args);
        refuse(ctx, "a + b", cut(|| Some(x.clone() + y.clone())), &args);
        refuse(ctx, "a + &b", cut(|| Some(x.clone() + &y)), &args);
        refuse(ctx, "&a + b", cut(|| Some(&x + y.clone())), &args);
        refuse(ctx, "a += b", cut(|| { let mut z = x.clone(); z += y.clone(); Some(z) }), &args);
        refuse(ctx, "&a - &b", cut(|| Some(&x - &y)), &args);
        refuse(ctx, "a - b", cut(|| Some(x.clone() - y.clone())), &args);
        refuse(ctx, "a - &b", cut(|| Some(x.clone() - &y)), &args);
        refuse(ctx, "&a - b", cut(|| Some(&x - y.clone())), &args);
        refuse(ctx, "a -= b", cut(|| { let mut z = x.clone(); z -= y.clone(); Some(z) }), &args);
        let eq = cut(|| x == y);
        ctx.check(eq == Ok(false), "a == b of different shapes", || format!("a == b of {args}: {eq:?}"));
    }

    // products
    if a.c == b.r {
        let p = a.mul(b);
        let bound = a.max() * b.max() * a.c as i128;
        if bound <= T::LIMIT {
            expect(ctx, "multiply_matrix", cut(|| x.multiply_matrix(&y).expect("fits")), &p, &args);
            expect(ctx, "&a * &b", cut(|| &x * &y), &p, &args);
            expect(ctx, "a * b", cut(|| x.clone() * y.clone()), &p, &args);
            expect(ctx, "a * &b", cut(|| x.clone() * &y), &p, &args);
            expect(ctx, "&a * b", cut(|| &x * y.clone()), &p, &args);
        }
    } else {
        refuse(ctx, "multiply_matrix", cut(|| x.multiply_matrix(&y).ok()), &args);
        refuse(ctx, "&a * &b", cut(|| Some(&x * &y)), &args);
        refuse(ctx, "a * b", cut(|| Some(x.clone() * y.clone())), &args);
        refuse(ctx, "a * &b", cut(|| Some(x.clone() * &y)), &args);
        refuse(ctx, "&a * b", cut(|| Some(&x * y.clone())), &args);
    }

    // columns side by side
    if a.r == b.r {
        let w = Ref { r: a.r, c: a.c + b.c, v: a.v.iter().zip(&b.v).map(|(p, q)| p.iter().chain(q).copied().collect()).collect() };
        expect(ctx, "augment_with", cut(|| x.augment_with(&y).expect("fits")), &w, &args);
        expect(ctx, "&a | &b", cut(|| &x | &y), &w, &args);
    } else {
        refuse(ctx, "augment_with", cut(|| x.augment_with(&y).ok()), &args);
        refuse(ctx, "&a | &b", cut(|| Some(&x | &y)), &args);
    }

    // the operands of borrowing operations are left alone
    ctx.check(same(&x, a) && same(&y, b), "an operand was changed", || args.clone());
}

fn unary<T: Num>(ctx: &mut Ctx, a: &Ref) {
    let args = format!("{:?} ({})", a.v, T::NAME);
    let x: Matrix<T> = make(a);

    expect(ctx, "transpose", cut(|| x.transpose()), &a.t(), &args);
    if a.r == a.c {
        let want = (0..a.r).map(|i| a.v[i][i]).sum::<i128>();
        if a.max() * a.r as i128 <= T::LIMIT {
            let got = cut(|| x.trace().ok());
            ctx.check(got == Ok(Some(T::of(want))), "trace", || format!("trace of {args}: {got:?}"));
        }
    } else {
        refuse(ctx, "trace", cut(|| x.trace().ok()), &args);
    }

    let s = ctx.rng.range(-3, 3) as i128;
    let scaled = Ref { v: a.v.iter().map(|r| r.iter().map(|x| x * s).collect()).collect(), ..a.clone() };
    if scaled.max() <= T::LIMIT {
        let args = format!("{args} by {s}");
        expect(ctx, "&a * s", cut(|| &x * T::of(s)), &scaled, &args);
        expect(ctx, "a * s", cut(|| x.clone() * T::of(s)), &scaled, &args);
        expect(ctx, "inplace_scale", cut(|| { let mut z = x.clone(); z.inplace_scale(T::of(s)); z }), &scaled, &args);
    }

    if a.r > 0 && a.c > 0 {
        let (r1, c1) = (ctx.rng.below(a.r), ctx.rng.below(a.c));
        let (r2, c2) = (ctx.rng.us(r1, a.r - 1), ctx.rng.us(c1, a.c - 1));
        let sub = Ref { r: r2 - r1 + 1, c: c2 - c1 + 1, v: a.v[r1..=r2].iter().map(|r| r[c1..=c2].to_vec()).collect() };
        expect(ctx, "subset", cut(|| x.subset(r1, c1, r2, c2)), &sub, &format!("{args} rows {r1}..{r2} cols {c1}..{c2}"));
    } else {
        ctx.count("matrices without values");
    }

    let text = cut(|| format!("{x}"));
    let want = if a.c == 0 { "[]".to_string() } else { format!("[{}]", a.v.iter().map(|r| r.iter().map(|v| format!("{}", T::of(*v))).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join("; ")) };
    ctx.check(text.as_deref() == Ok(&want), "Display", || format!("Display of {args}: {text:?}"));

    let back: Result<Vec<T>, _> = cut(|| x.clone().into());
    ctx.check(back == Ok(a.flat().into_iter().map(T::of).collect()), "into Vec", || format!("{args}: {back:?}"));
    ctx.check(same(&x, a), "an operand was changed", || args.clone());
}

fn constructors<T: Num>(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.us(1, 7), ctx.rng.us(1, 7));
    let zero = Ref { r, c, v: vec![vec![0; c]; r] };
    expect(ctx, "new", cut(|| Matrix::<T>::new(r, c)), &zero, &format!("{r} {c}"));
    let id = Ref { r, c: r, v: (0..r).map(|i| (0..r).map(|j| (i == j) as i128).collect()).collect() };
    expect(ctx, "new_identity", cut(|| Matrix::<T>::new_identity(r)), &id, &format!("{r}"));
    let a = Ref::random(ctx, 1, c, T::MAG);
    let vals: Vec<T> = a.flat().into_iter().map(T::of).collect();
    expect(ctx, "from_row_vec", cut(|| Matrix::from_row_vec(vals.clone())), &a, &format!("{:?}", a.v));
    expect(ctx, "from_col_vec", cut(|| Matrix::from_col_vec(vals.clone())), &a.t(), &format!("{:?}", a.v));
    let (p, q, s) = (vals[0], vals[c / 2], vals[c - 1]);
    let row = Ref { r: 1, c: 3, v: vec![vec![a.v[0][0], a.v[0][c / 2], a.v[0][c - 1]]] };
    expect(ctx, "row_vec!", cut(|| row_vec![p, q, s]), &row, "");
    expect(ctx, "col_vec!", cut(|| col_vec![p, q, s]), &row.t(), "");

    // from_vec accepts exactly the lists that fill whole rows
    let (cols, len) = (ctx.rng.us(0, 6), ctx.rng.us(0, 30));
    let list: Vec<i128> = (0..len).map(|_| ctx.rng.range(-T::MAG, T::MAG) as i128).collect();
    let typed: Vec<T> = list.iter().map(|&x| T::of(x)).collect();
    let got = cut(|| Matrix::from_vec(cols, typed).ok());
    let args = format!("{cols} columns, {len} values ({})", T::NAME);
    if cols > 0 && len % cols == 0 {
        let want = Ref { r: len / cols, c: cols, v: list.chunks(cols).map(|x| x.to_vec()).collect() };
        expect(ctx, "from_vec", got.and_then(|m| m.ok_or("Err".to_string())), &want, &args);
    } else {
        ctx.check(matches!(got, Ok(None)), "from_vec accepts a list that does not fill its rows", || format!("{args}: {got:?}"));
    }
}

/// A history of in-place operations, compared with the reference after every step.
fn history<T: Num>(ctx: &mut Ctx) {
    let (r, c) = (ctx.rng.us(1, 6), ctx.rng.us(1, 6));
    let mut a = Ref::random(ctx, r, c, T::MAG);
    let mut x: Matrix<T> = make(&a);
    let kept = (a.clone(), x.clone());
    let mut log = format!("start {:?} ({})", a.v, T::NAME);
    for _ in 0..ctx.rng.us(3, 14) {
        let (p, q) = (ctx.rng.below(r), ctx.rng.below(r));
        let s = ctx.rng.range(-2, 2) as i128;
        let mut b = a.clone();
        let op = ctx.rng.below(6);
        let name = match op {
            0 => { b.v.swap(p, q); format!("inplace_row_swap({p}, {q})") }
            1 => { for v in b.v[p].iter_mut() { *v *= s } format!("inplace_row_scale({p}, {s})") }
            2 => { for j in 0..c { b.v[p][j] += a.v[q][j] } format!("inplace_row_add({p}, {q})") }
            3 => { for j in 0..c { b.v[p][j] += a.v[q][j] * s } format!("inplace_scaled_row_add({p}, {q}, {s})") }
            4 => { let j = ctx.rng.below(c); b.v[p][j] = s; format!("[({p}, {j})] = {s}") }
            _ => { for v in b.v.iter_mut().flatten() { *v *= s } format!("inplace_scale({s})") }
        };
        if b.max() * 4 > T::LIMIT {
            continue;
        }
        let done = cut(|| match op {
            0 => x.inplace_row_swap(p, q),
            1 => x.inplace_row_scale(p, T::of(s)),
            2 => x.inplace_row_add(p, q),
            3 => x.inplace_scaled_row_add(p, q, T::of(s)),
            4 => {
                let j = (0..c).find(|&j| name.starts_with(&format!("[({p}, {j})]"))).unwrap_or(0);
                x[(p, j)] = T::of(s);
            }
            _ => x.inplace_scale(T::of(s)),
        });
        log += &format!("; {name}");
        a = b;
        ctx.seen(&(op, T::NAME, a.flat()));
        ctx.count("in-place step");
        let kind = name.split(['(', '[']).next().unwrap_or("").to_string();
        let ok = done.is_ok() && same(&x, &a);
        if !ctx.check(ok, &format!("history {kind}<{}>", T::NAME), || format!("{log}: got {x:?} {done:?}, want {:?}", a.v)) {
            return;
        }
    }
    ctx.check(same(&kept.1, &kept.0), "a clone changed with its original", || log.clone());
    ctx.sample("history", || log.clone());
}

fn dims(ctx: &mut Ctx) -> usize {
    match ctx.rng.below(100) {
        0..=2 => ctx.rng.us(8, 24),
        3 => 0,
        _ => ctx.rng.us(1, 6),
    }
}

fn round<T: Num>(ctx: &mut Ctx) {
    constructors::<T>(ctx);
    let (r, c) = (dims(ctx), dims(ctx));
    let a = Ref::random(ctx, r, c, T::MAG);
    unary::<T>(ctx, &a);
    // a partner that fits for sums, for products, for neither, or perhaps for one of them
    let (r2, c2) = match ctx.rng.below(5) {
        0 | 1 => (r, c),
        2 => { let n = dims(ctx); (c, n) }
        3 => (c, r),
        _ => (dims(ctx), dims(ctx)),
    };
    let b = Ref::random(ctx, r2, c2, T::MAG);
    binary::<T>(ctx, &a, &b);
    history::<T>(ctx);
    ctx.sample("pair", || format!("{:?} with {:?} as {}", a.v, b.v, T::NAME));
}

pub fn case(ctx: &mut Ctx) {
    match ctx.case % 8 {
        0 => round::<f32>(ctx),
        1 => round::<i8>(ctx),
        2 => round::<i16>(ctx),
        3 | 4 => round::<i32>(ctx),
        5 => round::<i64>(ctx),
        _ => round::<f64>(ctx),
    }
}
