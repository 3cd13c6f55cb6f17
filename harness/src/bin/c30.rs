//! C30: floating-point linear algebra and polynomials: entry-wise operations
//! are the IEEE operations, sums of products are accurate and propagate
//! infinities and NaN.
use harness::dd::{two_prod, DD};
use harness::ensure;
use harness::mm::Mm;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Conj, Field, Polynomial, Zero, One};
use magnesia::linalg::*;
use std::fmt::Debug;
use std::ops::*;

trait Fl:
    Field + Conj + Copy + Debug + Send + Sync + PartialOrd + 'static
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + AddAssign + SubAssign + MulAssign + for<'a> MulAssign<&'a Self>
{
    const NAME: &'static str;
    const EPS: f64;
    const MAX: f64;
    const TINY: f64;
    fn of(x: f64) -> Self;
    fn val(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const MAX: f64 = f64::MAX;
    const TINY: f64 = 5e-324;
    fn of(x: f64) -> f64 {
        x
    }
    fn val(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        if self.is_nan() { 1 } else { self.to_bits() }
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const MAX: f64 = f32::MAX as f64;
    const TINY: f64 = 1.5e-45;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        if self.is_nan() { 1 } else { self.to_bits() as u64 }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Finite,
    Cancelling,
    Huge,
    Special,
}
fn value<T: Fl>(r: &mut Rng, k: Kind) -> T {
    let s = if r.chance(1, 2) { -1.0 } else { 1.0 };
    match k {
        Kind::Finite => T::of(s * (1.0 + r.unit()) * 2f64.powi(r.range(-20, 20) as i32)),
        Kind::Cancelling => T::of(s * [1.0, 1.0 + T::EPS, 1.0 - T::EPS, 3.0, 0.1][r.below(5)] * 2f64.powi(r.range(0, 2) as i32 * 12)),
        // products close to the largest finite number
        Kind::Huge => T::of(s * (1.0 + r.unit()) * T::MAX.sqrt() * 2f64.powi(-(r.range(3, 6) as i32))),
        Kind::Special => match r.below(24) {
            0 => T::of(f64::INFINITY * s),
            1 if r.chance(1, 2) => T::of(f64::NAN),
            2..=5 => T::of(0.0 * s),
            6 => T::of(T::TINY * s),
            7 => T::of(T::MAX * s),
            _ => T::of(s * (1.0 + r.unit())),
        },
    }
}
fn kind(r: &mut Rng) -> Kind {
    r.pick(&[Kind::Finite, Kind::Cancelling, Kind::Huge, Kind::Special, Kind::Special])
}
fn list<T: Fl>(r: &mut Rng, n: usize, k: Kind) -> Vec<T> {
    let mut v: Vec<T> = (0..n).map(|_| value(r, k)).collect();
    // often one special value only
    if k == Kind::Special && n > 0 && r.chance(1, 2) {
        for x in v.iter_mut() {
            if !x.val().is_finite() {
                *x = T::of(1.0);
            }
        }
        let i = r.below(n);
        v[i] = T::of(r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]));
    }
    v
}

/// what a sum of products may come out as
#[derive(Debug)]
enum Want {
    Nan,
    Inf(f64),
    Near(f64, f64),
    Any,
}
fn sum_of<T: Fl>(terms: &[(T, T, f64)], ops: f64) -> Want {
    let (mut s, mut mag, mut inf) = (DD::ZERO, 0.0f64, [false; 2]);
    for &(a, b, sign) in terms {
        let (a, b) = (a.val() * sign, b.val());
        let p = a * b;
        if p.is_nan() {
            return Want::Nan;
        }
        if a.is_infinite() || b.is_infinite() {
            inf[(p < 0.0) as usize] = true;
            continue;
        }
        mag += p.abs();
        s = s + two_prod(a, b);
    }
    if !(mag < T::MAX / 4.0) {
        return Want::Any;
    }
    match inf {
        [true, true] => Want::Nan,
        [true, false] => Want::Inf(f64::INFINITY),
        [false, true] => Want::Inf(f64::NEG_INFINITY),
        _ => Want::Near(s.f(), (terms.len() as f64 + ops) * (T::EPS * mag + T::TINY)),
    }
}
fn judge<T: Fl>(l: &mut Log, got: T, want: &Want, what: &dyn Fn() -> String) -> Res {
    let g = got.val();
    let (ok, name) = match *want {
        Want::Nan => (g.is_nan(), "sums that are NaN"),
        Want::Inf(x) => (g == x, "infinite sums"),
        Want::Near(x, t) => ((g - x).abs() <= t, "finite sums"),
        Want::Any => (true, "sums near overflow"),
    };
    l.count(name, 1);
    ensure!(ok, "{} over {}: {g:e}, want {want:?}", what(), T::NAME);
    Ok(())
}

fn bitwise<T: Fl>(l: &mut Log, got: &[T], want: &[T], what: &dyn Fn() -> String) -> Res {
    ensure!(got.len() == want.len(), "{} over {}: {} entries, want {}", what(), T::NAME, got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.bits() == w.bits(), "{} over {}: entry {i} is {g:?}, the IEEE operation gives {w:?}", what(), T::NAME);
    }
    l.count("entry-wise results", got.len() as u64);
    Ok(())
}
fn flat<T: Copy>(v: &DVector<T>) -> Vec<T> {
    (0..v.len()).map(|i| v[i]).collect()
}
fn flatm<T: Copy>(v: &DMatrix<T>) -> Vec<T> {
    (0..v.num_rows() * v.num_cols()).map(|k| v[[k / v.num_cols(), k % v.num_cols()]]).collect()
}
fn zipw<T: Copy>(a: &[T], b: &[T], f: impl Fn(T, T) -> T) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}

fn vectors<T: Fl>(r: &mut Rng, l: &mut Log) -> Res {
    // mostly short; now and then long enough for blocked or parallel sums
    let n = if r.chance(1, 25) { r.size(6000) } else { r.size(60) };
    let (k1, k2) = (kind(r), kind(r));
    let (a, b): (Vec<T>, Vec<T>) = (list(r, n, k1), list(r, n, k2));
    let (u, v) = ((&a[..]).eval(), (&b[..]).eval());
    let ctx = |op: &'static str| { let (a, b) = (&a, &b); move || format!("{op} with u={a:?} v={b:?}") };
    bitwise(l, &flat(&(&u + &v).eval()), &zipw(&a, &b, |x, y| x + y), &ctx("u + v"))?;
    bitwise(l, &flat(&(&u - &v).eval()), &zipw(&a, &b, |x, y| x - y), &ctx("u - v"))?;
    bitwise(l, &flat(&u.mul_elemwise(&v).eval()), &zipw(&a, &b, |x, y| x * y), &ctx("u.mul_elemwise(v)"))?;
    bitwise(l, &flat(&u.div_elemwise(&v).eval()), &zipw(&a, &b, |x, y| x / y), &ctx("u.div_elemwise(v)"))?;
    bitwise(l, &flat(&u.conj().eval()), &a, &ctx("u.conj()"))?;
    let mut t = u.clone();
    t += &v;
    bitwise(l, &flat(&t), &zipw(&a, &b, |x, y| x + y), &ctx("u += v"))?;
    let mut t = u.clone();
    t -= &v;
    bitwise(l, &flat(&t), &zipw(&a, &b, |x, y| x - y), &ctx("u -= v"))?;
    bitwise(l, &flat(&DVector::<T>::zeros(n).eval()), &vec![T::of(0.0); n], &ctx("zeros"))?;
    let terms: Vec<_> = a.iter().zip(&b).map(|(x, y)| (*x, *y, 1.0)).collect();
    let want = sum_of(&terms, 3.0);
    judge(l, &u * &v, &want, &ctx("&u * &v"))?;
    judge(l, u.clone() * v.clone(), &want, &ctx("u * v"))?;
    l.case(key_of(&("v", T::NAME, &a, &b)), n > 0);
    l.count(T::NAME, 1);
    l.max("length", n as u64);
    l.sample(|| format!("{}: u={a:?} v={b:?}", T::NAME));
    // the same as complex numbers: (a_0 + a_1 i, ...)
    let c = |v: &[T]| v.chunks_exact(2).map(|p| Complex::new(p[0], p[1])).collect::<Vec<_>>();
    let (ca, cb) = (c(&a), c(&b));
    let (u, v) = ((&ca[..]).eval(), (&cb[..]).eval());
    let re: Vec<_> = ca.iter().zip(&cb).flat_map(|(x, y)| [(x.re, y.re, 1.0), (x.im, y.im, 1.0)]).collect();
    let im: Vec<_> = ca.iter().zip(&cb).flat_map(|(x, y)| [(x.re, y.im, 1.0), (x.im, y.re, -1.0)]).collect();
    let p = &u * &v;
    judge(l, p.re, &sum_of(&re, 4.0), &ctx("real part of the complex &u * &v"))?;
    judge(l, p.im, &sum_of(&im, 4.0), &ctx("imaginary part of the complex &u * &v"))
}

fn matrices<T: Fl>(r: &mut Rng, l: &mut Log) -> Res {
    let (m, k, n) = match r.below(25) {
        0 => (1 + r.below(3), 1 + r.size(600), 1 + r.below(3)),
        1 => (1 + r.size(60), 1 + r.below(5), 1 + r.size(60)),
        _ => (r.below(6), 1 + r.below(9), r.below(6)),
    };
    let (k1, k2) = (kind(r), kind(r));
    let a = Mm::<T> { r: m, c: k, v: list(r, m * k, k1) };
    let b = Mm::<T> { r: k, c: n, v: list(r, k * n, k2) };
    let e = Mm::<T> { r: m, c: k, v: list(r, m * k, k2) };
    let build = |q: &Mm<T>| {
        let w = q.clone();
        make_matrix_expr(q.r, q.c, move |i, j| *w.at(i, j)).eval()
    };
    let (x, y, z) = (build(&a), build(&b), build(&e));
    let ctx = |op: &'static str| { let (a, b, e) = (&a, &b, &e); move || format!("{op} with a={a:?} b={b:?} e={e:?}") };
    let p = (&x * &y).eval();
    let lazy = &x * &y;
    for i in 0..m {
        for j in 0..n {
            let terms: Vec<_> = (0..k).map(|q| (*a.at(i, q), *b.at(q, j), 1.0)).collect();
            let want = sum_of(&terms, 3.0);
            judge(l, p[[i, j]], &want, &|| format!("entry ({i},{j}) of {}", ctx("a * b")()))?;
            judge(l, lazy.entry(i, j), &want, &|| format!("lazy entry ({i},{j}) of {}", ctx("a * b")()))?;
        }
    }
    bitwise(l, &flatm(&(&x + &z).eval()), &zipw(&a.v, &e.v, |x, y| x + y), &ctx("a + e"))?;
    bitwise(l, &flatm(&(&x - &z).eval()), &zipw(&a.v, &e.v, |x, y| x - y), &ctx("a - e"))?;
    bitwise(l, &flatm(&x.mul_elemwise(&z).eval()), &zipw(&a.v, &e.v, |x, y| x * y), &ctx("a.mul_elemwise(e)"))?;
    bitwise(l, &flatm(&x.div_elemwise(&z).eval()), &zipw(&a.v, &e.v, |x, y| x / y), &ctx("a.div_elemwise(e)"))?;
    bitwise(l, &flatm(&x.t().eval()), &a.t().v, &ctx("a.t()"))?;
    bitwise(l, &flatm(&x.h().eval()), &a.t().v, &ctx("a.h()"))?;
    let d: Vec<T> = (0..m.min(k)).map(|i| *a.at(i, i)).collect();
    bitwise(l, &flat(&x.diag().eval()), &d, &ctx("a.diag()"))?;
    let dd: Vec<T> = Mm::<T>::new(d.len(), d.len(), |i, j| if i == j { d[i] } else { T::of(0.0) }).v;
    bitwise(l, &flatm(&(&d[..]).eval().diag().eval()), &dd, &ctx("diagonal matrix of a.diag()"))?;
    let mut t = x.clone();
    t += &z;
    bitwise(l, &flatm(&t), &zipw(&a.v, &e.v, |x, y| x + y), &ctx("a += e"))?;
    let mut t = x.clone();
    t -= &z;
    bitwise(l, &flatm(&t), &zipw(&a.v, &e.v, |x, y| x - y), &ctx("a -= e"))?;
    let eye: Vec<T> = Mm::<T>::new(k, k, |i, j| T::of((i == j) as u8 as f64)).v;
    bitwise(l, &flatm(&DMatrix::<T>::eye(k).eval()), &eye, &ctx("eye"))?;
    l.case(key_of(&("m", T::NAME, &a, &b)), m * n > 0);
    l.count(T::NAME, 1);
    l.sample(|| format!("{}: {m}x{k} times {k}x{n}: a={:?} b={:?}", T::NAME, a.v, b.v));
    Ok(())
}

fn statics<T: Fl, const M: usize, const K: usize, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let (k1, k2) = (kind(r), kind(r));
    let a = Mm::<T> { r: M, c: K, v: list(r, M * K, k1) };
    let b = Mm::<T> { r: K, c: N, v: list(r, K * N, k2) };
    let (u, v): (Vec<T>, Vec<T>) = (list(r, K, k1), list(r, K, k2));
    let s = value::<T>(r, k2);
    fn st<T: Fl, const R: usize, const C: usize>(m: &Mm<T>) -> SMatrix<T, R, C> {
        SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| *m.at(i, j))))
    }
    let arr = |v: &[T]| SVector::<T, K>::from(std::array::from_fn(|i| v[i]));
    let (x, y) = (arr(&u), arr(&v));
    let ctx = |op: &'static str| { let (a, b, u, v) = (&a, &b, &u, &v); move || format!("static {op} with a={:?} b={:?} u={u:?} v={v:?} s={s:?}", a.v, b.v) };
    bitwise(l, &(x + y).0, &zipw(&u, &v, |x, y| x + y), &ctx("u + v"))?;
    bitwise(l, &(x - &y).0, &zipw(&u, &v, |x, y| x - y), &ctx("u - v"))?;
    bitwise(l, &(x * s).0, &u.iter().map(|x| *x * s).collect::<Vec<_>>(), &ctx("u * s"))?;
    let mut t = x;
    t *= s;
    bitwise(l, &t.0, &u.iter().map(|x| *x * s).collect::<Vec<_>>(), &ctx("u *= s"))?;
    let mut t = x;
    t += &y;
    bitwise(l, &t.0, &zipw(&u, &v, |x, y| x + y), &ctx("u += &v"))?;
    bitwise(l, &SVector::<T, K>::zero().0, &[T::of(0.0); K], &ctx("zero"))?;
    let terms: Vec<_> = u.iter().zip(&v).map(|(x, y)| (*x, *y, 1.0)).collect();
    judge(l, x * y, &sum_of(&terms, 3.0), &ctx("u * v"))?;
    judge(l, x * &y, &sum_of(&terms, 3.0), &ctx("u * &v"))?;
    let (p, q) = (st::<T, M, K>(&a), st::<T, K, N>(&b));
    let pv = &p * &x;
    for i in 0..M {
        let terms: Vec<_> = (0..K).map(|j| (*a.at(i, j), u[j], 1.0)).collect();
        judge(l, pv[i], &sum_of(&terms, 3.0), &|| format!("component {i} of {}", ctx("a * u")()))?;
    }
    // the columns of a product, read off where the unit vectors cannot disturb
    let pq = &p * &q;
    let pq2 = p * q;
    if a.v.iter().chain(&b.v).all(|x| x.val().is_finite()) {
        for j in 0..N {
            let e = SVector::<T, N>::from(std::array::from_fn(|i| T::of((i == j) as u8 as f64)));
            let (c, d) = (&pq * &e, &pq2 * &e);
            let all_finite = (0..M).all(|i| (0..N).all(|jj| !matches!(sum_of(&(0..K).map(|q| (*a.at(i, q), *b.at(q, jj), 1.0)).collect::<Vec<_>>(), 3.0), Want::Any)));
            if !all_finite {
                continue;
            }
            for i in 0..M {
                let terms: Vec<_> = (0..K).map(|q| (*a.at(i, q), *b.at(q, j), 1.0)).collect();
                let want = sum_of(&terms, 3.0);
                judge(l, c[i], &want, &|| format!("entry ({i},{j}) of {}", ctx("&a * &b")()))?;
                judge(l, d[i], &want, &|| format!("entry ({i},{j}) of {}", ctx("a * b")()))?;
            }
        }
    }
    l.case(key_of(&("s", T::NAME, &a, &b, &u)), true);
    l.count("static products", 1);
    Ok(())
}

fn dv<T: Fl>(x: Complex<T>, s: T) -> Complex<T> {
    <Complex<T> as Div<T>>::div(x, s)
}
fn dr<T: Fl>(x: Complex<T>, s: T) -> Complex<T> {
    <Complex<T> as Div<&T>>::div(x, &s)
}
fn complex<T: Fl>(r: &mut Rng, l: &mut Log) -> Res {
    let (k1, k2) = (kind(r), kind(r));
    let (a, b): (Vec<T>, Vec<T>) = (list(r, 2, k1), list(r, 3, k2));
    let (x, y, s) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]), b[2]);
    let ctx = |op: &'static str| move || format!("complex {op} with x={x:?} y={y:?} s={s:?}");
    let f = |z: Complex<T>| [z.re, z.im];
    bitwise(l, &f(x + y), &[a[0] + b[0], a[1] + b[1]], &ctx("x + y"))?;
    bitwise(l, &f(x - y), &[a[0] - b[0], a[1] - b[1]], &ctx("x - y"))?;
    bitwise(l, &f(-x), &[-a[0], -a[1]], &ctx("-x"))?;
    bitwise(l, &f(x.conj()), &[a[0], -a[1]], &ctx("x.conj()"))?;
    bitwise(l, &f(x * s), &[a[0] * s, a[1] * s], &ctx("x * s"))?;
    bitwise(l, &f(dv(x, s)), &[a[0] / s, a[1] / s], &ctx("x / s"))?;
    bitwise(l, &f(dr(x, s)), &[a[0] / s, a[1] / s], &ctx("x / &s"))?;
    let mut t = x;
    t += y;
    bitwise(l, &f(t), &[a[0] + b[0], a[1] + b[1]], &ctx("x += y"))?;
    let mut t = x;
    t -= &y;
    bitwise(l, &f(t), &[a[0] - b[0], a[1] - b[1]], &ctx("x -= &y"))?;
    bitwise(l, &f(Complex::<T>::zero()), &[T::of(0.0); 2], &ctx("zero"))?;
    bitwise(l, &f(Complex::<T>::one()), &[T::of(1.0), T::of(0.0)], &ctx("one"))?;
    let re = sum_of(&[(a[0], b[0], 1.0), (a[1], b[1], -1.0)], 2.0);
    let im = sum_of(&[(a[0], b[1], 1.0), (a[1], b[0], 1.0)], 2.0);
    let mut t = x;
    t *= y;
    for (how, z) in [("x * y", x * y), ("&x * &y", &x * &y), ("x *= y", t)] {
        judge(l, z.re, &re, &|| format!("real part of {}", ctx(how)()))?;
        judge(l, z.im, &im, &|| format!("imaginary part of {}", ctx(how)()))?;
    }
    let n = sum_of(&[(a[0], a[0], 1.0), (a[1], a[1], 1.0)], 2.0);
    judge(l, x.sqr_norm(), &n, &ctx("x.sqr_norm()"))?;
    l.case(key_of(&("c", T::NAME, &a, &b)), true);
    l.count("complex", 1);
    Ok(())
}

/// sum of c_i x^i in double-double and the sum of the magnitudes
fn power_sum<T: Fl>(c: &[T], x: f64) -> (DD, f64, [bool; 2], bool) {
    let (mut s, mut mag, mut pow, mut inf, mut nan) = (DD::ZERO, 0.0, DD::from(1.0), [false; 2], false);
    for c in c {
        let c = c.val();
        let p = c * pow.f();
        if p.is_nan() {
            nan = true;
        } else if c.is_infinite() {
            inf[(p < 0.0) as usize] = true;
        } else {
            s = s + DD::from(c) * pow;
            mag += p.abs();
        }
        pow = pow * DD::from(x);
    }
    (s, mag, inf, nan)
}

/// At an argument that is not finite, only what every order of evaluation has
/// in common is demanded: a NaN argument, a NaN coefficient, and a leading
/// coefficient of zero times an infinity all give NaN.
fn at_special<T: Fl>(r: &mut Rng, l: &mut Log, mut a: Vec<T>) -> Res {
    let n = a.len();
    let x = T::of(r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    if n > 1 && r.chance(1, 2) {
        let from = n - 1 - r.below(n - 1);
        for c in &mut a[from..] {
            *c = T::of(r.pick(&[0.0, -0.0]));
        }
    }
    let nan = n > 0 && a.iter().any(|c| c.val().is_nan()) || n > 1 && (x.val().is_nan() || a[n - 1].val() == 0.0);
    let want = if nan { Want::Nan } else { Want::Any };
    let p = Polynomial::from_coefficients(a.clone());
    judge(l, p.eval(x), &want, &|| format!("{a:?} at {x:?}"))?;
    judge(l, p.eval_ref(&x), &want, &|| format!("{a:?} at &{x:?}"))?;
    if nan {
        l.count("polynomials at arguments that are not finite", 1);
    }
    l.case(key_of(&("px", T::NAME, &a, x)), nan);
    Ok(())
}

fn polynomials<T: Fl>(r: &mut Rng, l: &mut Log) -> Res {
    let long = r.chance(1, 25);
    let (n, m) = if long { (r.size(300), r.size(60)) } else { (r.below(12), r.below(8)) };
    let k = r.pick(&[Kind::Finite, Kind::Cancelling, Kind::Special]);
    let mut a: Vec<T> = list(r, n, k);
    for c in a.iter_mut() {
        if c.val().abs() == T::MAX {
            *c = T::of(2.0);
        }
    }
    if r.chance(1, 6) {
        return at_special(r, l, a);
    }
    let x = T::of(match r.below(5) {
        0 => r.pick(&[0.0, 1.0, -1.0, 2.0, -2.0]),
        _ if long => (if r.chance(1, 2) { -1.0 } else { 1.0 }) * (0.9 + 0.3 * r.unit()),
        _ => (if r.chance(1, 2) { -1.0 } else { 1.0 }) * (0.25 + 3.0 * r.unit()),
    });
    let p = Polynomial::from_coefficients(a.clone());
    let (s, mag, inf, nan) = power_sum(&a, x.val());
    // an error committed below the smallest normal number may be multiplied by
    // a power of x
    let top = x.val().abs().max(1.0).powi((n + m) as i32 + 1);
    let tol = |mag: f64, ops: usize| (2.0 * ops as f64 + 4.0) * (T::EPS * mag + (1e3 + top) * T::TINY);
    let want = match (nan, inf) {
        // NaN and infinite coefficients count only where no power overflows
        _ if top > T::MAX / 1e10 || mag > T::MAX / 1e10 => Want::Any,
        (true, _) | (_, [true, true]) => Want::Nan,
        (_, [true, _]) => Want::Inf(f64::INFINITY),
        (_, [_, true]) => Want::Inf(f64::NEG_INFINITY),
        _ if mag < T::MAX / 1e10 => Want::Near(s.f(), tol(mag, n)),
        _ => Want::Any,
    };
    judge(l, p.eval(x), &want, &|| format!("{a:?} at {x:?}"))?;
    judge(l, p.eval_ref(&x), &want, &|| format!("{a:?} at &{x:?}"))?;
    if k == Kind::Special {
        l.case(key_of(&("p", T::NAME, &a, x)), n > 0);
        l.count("polynomials", 1);
        return Ok(());
    }
    let b: Vec<T> = list(r, m, k);
    let q = Polynomial::from_coefficients(b.clone());
    let (t, mag2, _, _) = power_sum(&b, x.val());
    let small = |c: &[T]| c.iter().map(|c| T::of(c.val().abs())).collect::<Vec<T>>();
    // the magnitude of a product is the product of the magnitudes
    let (_, ma, _, _) = power_sum(&small(&a), x.val().abs());
    let (_, mb, _, _) = power_sum(&small(&b), x.val().abs());
    let ops = n + m + n.min(m);
    for (what, g, w, mag) in [
        ("product", (&p * &q).eval(x), s * t, ma * mb),
        ("sum", (p.clone() + q.clone()).eval(x), s + t, mag + mag2),
        ("difference", (p.clone() - q.clone()).eval(x), s - t, mag + mag2),
    ] {
        if mag < T::MAX / 1e10 && top < T::MAX / 1e10 {
            judge(l, g, &Want::Near(w.f(), tol(mag, ops + 2)), &|| format!("{what} of {a:?} and {b:?} at {x:?}"))?;
        }
    }
    l.case(key_of(&("p", T::NAME, &a, &b, x)), n > 0);
    l.count("polynomials", 1);
    Ok(())
}

/// Coefficients are small integers, infinities and NaN: every sum is exact in
/// any order, or infinite, or NaN.
fn coefficients<T: Fl>(r: &mut Rng, l: &mut Log) -> Res {
    let (n, m) = if r.chance(1, 20) { (1 + r.size(80), 1 + r.size(80)) } else { (r.below(8), r.below(8)) };
    let mut gen = |n: usize, special: bool| {
        let mut v: Vec<T> = (0..n).map(|_| T::of(if r.chance(1, 3) { r.pick(&[0.0, -0.0]) } else { r.range(-9, 9) as f64 })).collect();
        if special && n > 0 {
            for _ in 0..1 + r.below(2) {
                let i = r.below(n);
                v[i] = T::of(r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::INFINITY]));
            }
        }
        v
    };
    let (a, b) = (gen(n, true), gen(m, (n + m) % 2 == 0));
    let (p, q) = (Polynomial::from_coefficients(a.clone()), Polynomial::from_coefficients(b.clone()));
    let at = |v: &[T], i: usize| v.get(i).map_or(0.0, |x| x.val());
    let mut prod = vec![0.0; if n * m > 0 { n + m - 1 } else { 0 }];
    for i in 0..n {
        for j in 0..m {
            prod[i + j] += at(&a, i) * at(&b, j);
        }
    }
    let sum: Vec<f64> = (0..n.max(m)).map(|i| at(&a, i) + at(&b, i)).collect();
    let dif: Vec<f64> = (0..n.max(m)).map(|i| at(&a, i) - at(&b, i)).collect();
    let neg: Vec<f64> = (0..n).map(|i| -at(&a, i)).collect();
    macro_rules! assign { ($op:tt, $q:expr) => {{ let mut t = p.clone(); t $op $q; t }} }
    for (what, got, want) in [
        ("p * q", p.clone() * q.clone(), &prod),
        ("&p * &q", &p * &q, &prod),
        ("p *= q", assign!(*=, q.clone()), &prod),
        ("p + q", p.clone() + q.clone(), &sum),
        ("p += q", assign!(+=, q.clone()), &sum),
        ("p += &q", assign!(+=, &q), &sum),
        ("p - q", p.clone() - q.clone(), &dif),
        ("p -= q", assign!(-=, q.clone()), &dif),
        ("p -= &q", assign!(-=, &q), &dif),
        ("-p", -p.clone(), &neg),
    ] {
        let nan = want.iter().any(|x| x.is_nan());
        // a polynomial with a coefficient that is NaN differs from itself
        ensure!((got != got) == nan, "{what} over {} is {got:?}, want coefficients {want:?}: p={a:?} q={b:?}", T::NAME);
        if nan {
            l.count("polynomials with coefficients that are NaN", 1);
            continue;
        }
        let w = Polynomial::from_coefficients(want.iter().map(|x| T::of(*x)).collect());
        ensure!(got == w, "{what} over {} is {got:?}, want coefficients {want:?}: p={a:?} q={b:?}", T::NAME);
        if want.iter().any(|x| x.is_infinite()) {
            l.count("polynomials with infinite coefficients", 1);
        }
    }
    l.case(key_of(&("pc", T::NAME, format!("{a:?}{b:?}"))), n + m > 0);
    Ok(())
}

fn main() {
    let run = Run::new("C30", "a set of floating-point operands put through every operation of one container type; non-trivial if they have elements");
    for (k, n) in [("f32", 2000), ("f64", 2000), ("entry-wise results", 100_000), ("finite sums", 20_000), ("infinite sums", 2000), ("sums that are NaN", 2000), ("static products", 500), ("complex", 500), ("polynomials", 500), ("polynomials at arguments that are not finite", 100)] {
        run.require(k, n);
    }
    run.cases("vectors-f64", run.n(400, 20_000), vectors::<f64>);
    run.cases("vectors-f32", run.n(400, 20_000), vectors::<f32>);
    run.cases("matrices-f64", run.n(200, 10_000), matrices::<f64>);
    run.cases("matrices-f32", run.n(200, 10_000), matrices::<f32>);
    run.cases("complex-f64", run.n(400, 20_000), complex::<f64>);
    run.cases("complex-f32", run.n(400, 20_000), complex::<f32>);
    run.cases("polynomials-f64", run.n(400, 20_000), polynomials::<f64>);
    run.cases("polynomials-f32", run.n(400, 20_000), polynomials::<f32>);
    run.cases("statics", run.n(100, 5000), |r, l| {
        statics::<f64, 2, 2, 2>(r, l)?;
        statics::<f32, 3, 3, 3>(r, l)?;
        statics::<f64, 1, 4, 2>(r, l)?;
        statics::<f32, 4, 1, 3>(r, l)?;
        statics::<f64, 5, 7, 1>(r, l)?;
        statics::<f64, 2, 16, 3>(r, l)?;
        statics::<f64, 1, 70, 1>(r, l)?;
        statics::<f32, 3, 33, 2>(r, l)?;
        statics::<f32, 17, 2, 19>(r, l)
    });
    run.require("polynomials with coefficients that are NaN", 500);
    run.require("polynomials with infinite coefficients", 500);
    run.cases("coefficients-f64", run.n(200, 10_000), coefficients::<f64>);
    run.cases("coefficients-f32", run.n(200, 10_000), coefficients::<f32>);
    run.finish()
}
