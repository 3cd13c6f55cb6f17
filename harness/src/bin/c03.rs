//! C03: ring axioms under the library's own ==, for arbitrarily nested types.
use harness::elems::*;
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Polynomial, Ring};
use magnesia::linalg::SMatrix;
use std::fmt::Debug;

/// Model value: a tree; polynomials are lists of any length.
#[derive(Clone, PartialEq, Debug)]
enum M {
    S(i64),
    L(Vec<M>),
}

trait G: Ring + Debug {
    fn name() -> String;
    fn gen(r: &mut Rng) -> M;
    fn build(m: &M) -> Self;
    /// canonical form of the model value
    fn norm(m: &M) -> M;
    /// the same mathematical value, possibly represented differently
    fn rerep(m: &M, r: &mut Rng) -> M;
    /// a different mathematical value, if there is one
    fn perturb(m: &M, r: &mut Rng) -> M;
}
fn list(m: &M) -> &[M] {
    match m {
        M::L(v) => v,
        _ => unreachable!(),
    }
}

trait Sc {
    fn of(x: i64) -> Self;
}
impl Sc for Zp {
    fn of(x: i64) -> Zp {
        Zp::new(x as i128 * 1_000_000_007_001)
    }
}
macro_rules! sc { ($($t:ty),*) => {$( impl Sc for $t { fn of(x: i64) -> $t { x as $t } } )*}; }
sc!(i8, i16, i32, i64, i128, isize, f32, f64);

macro_rules! scalar {
    ($t:ty, $lo:expr, $hi:expr) => {
        impl G for $t {
            fn name() -> String {
                stringify!($t).into()
            }
            fn gen(r: &mut Rng) -> M {
                M::S(match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => -1,
                    _ => r.range($lo, $hi),
                })
            }
            fn build(m: &M) -> Self {
                match m {
                    M::S(x) => Sc::of(*x),
                    _ => unreachable!(),
                }
            }
            fn norm(m: &M) -> M {
                m.clone()
            }
            fn rerep(m: &M, _: &mut Rng) -> M {
                m.clone()
            }
            fn perturb(m: &M, r: &mut Rng) -> M {
                match m {
                    M::S(x) => loop {
                        let y = r.range($lo, $hi);
                        if y != *x {
                            return M::S(y);
                        }
                    },
                    _ => unreachable!(),
                }
            }
        }
    };
}
scalar!(Zp, -1_000_000, 1_000_000);
scalar!(i8, -3, 3);
scalar!(i16, -20, 20);
scalar!(i32, -60, 60);
scalar!(i64, -9000, 9000);
scalar!(i128, -9000, 9000);
scalar!(isize, -9000, 9000);
scalar!(f32, -100, 100);
scalar!(f64, -9000, 9000);

impl G for Nc {
    fn name() -> String {
        "Nc".into()
    }
    fn gen(r: &mut Rng) -> M {
        M::L((0..4).map(|_| Zp::gen_m(r)).collect())
    }
    fn build(m: &M) -> Self {
        let v = list(m);
        Nc([0, 1, 2, 3].map(|i| <Zp as G>::build(&v[i])))
    }
    fn norm(m: &M) -> M {
        m.clone()
    }
    fn rerep(m: &M, _: &mut Rng) -> M {
        m.clone()
    }
    fn perturb(m: &M, r: &mut Rng) -> M {
        let mut v = list(m).to_vec();
        let i = r.below(4);
        v[i] = <Zp as G>::perturb(&v[i], r);
        M::L(v)
    }
}
impl Zp2 for Zp {}
trait Zp2 {
    fn gen_m(r: &mut Rng) -> M {
        <Zp as G>::gen(r)
    }
}

impl<T: G> G for Complex<T> {
    fn name() -> String {
        format!("Complex<{}>", T::name())
    }
    fn gen(r: &mut Rng) -> M {
        M::L(vec![T::gen(r), T::gen(r)])
    }
    fn build(m: &M) -> Self {
        let v = list(m);
        Complex::new(T::build(&v[0]), T::build(&v[1]))
    }
    fn norm(m: &M) -> M {
        M::L(list(m).iter().map(T::norm).collect())
    }
    fn rerep(m: &M, r: &mut Rng) -> M {
        M::L(list(m).iter().map(|x| T::rerep(x, r)).collect())
    }
    fn perturb(m: &M, r: &mut Rng) -> M {
        let mut v = list(m).to_vec();
        let i = r.below(2);
        v[i] = T::perturb(&v[i], r);
        M::L(v)
    }
}

fn zero_of<T: G>(r: &mut Rng) -> M {
    // a model of zero, found by shape
    let m = T::gen(r);
    zeroed(&m)
}
fn zeroed(m: &M) -> M {
    match m {
        M::S(_) => M::S(0),
        M::L(v) => M::L(v.iter().map(zeroed).collect()),
    }
}

impl<T: G> G for Polynomial<T> {
    fn name() -> String {
        format!("Polynomial<{}>", T::name())
    }
    fn gen(r: &mut Rng) -> M {
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => r.below(12),
            _ => r.below(5),
        };
        let mut v: Vec<M> = (0..n).map(|_| T::gen(r)).collect();
        match r.below(5) {
            0 => {
                for _ in 0..r.below(4) {
                    v.push(zero_of::<T>(r));
                }
            }
            1 => v = v.iter().map(zeroed).collect(),
            _ => {}
        }
        M::L(v)
    }
    fn build(m: &M) -> Self {
        Polynomial::from_coefficients(list(m).iter().map(T::build).collect())
    }
    fn norm(m: &M) -> M {
        let mut v: Vec<M> = list(m).iter().map(T::norm).collect();
        while let Some(x) = v.last() {
            if *x == T::norm(&zeroed(x)) {
                v.pop();
            } else {
                break;
            }
        }
        M::L(v)
    }
    fn rerep(m: &M, r: &mut Rng) -> M {
        let mut v: Vec<M> = list(&Self::norm(m)).iter().map(|x| T::rerep(x, r)).collect();
        for _ in 0..r.below(4) {
            v.push(zero_of::<T>(r));
        }
        M::L(v)
    }
    fn perturb(m: &M, r: &mut Rng) -> M {
        let mut v = list(m).to_vec();
        let k = r.below(v.len() + 3);
        while v.len() <= k {
            v.push(zero_of::<T>(r));
        }
        v[k] = T::perturb(&v[k], r);
        M::L(v)
    }
}

impl<T: G, const N: usize> G for SMatrix<T, N, N> {
    fn name() -> String {
        format!("SMatrix<{},{N}>", T::name())
    }
    fn gen(r: &mut Rng) -> M {
        M::L((0..N * N).map(|_| T::gen(r)).collect())
    }
    fn build(m: &M) -> Self {
        let v = list(m);
        SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| T::build(&v[i * N + j]))))
    }
    fn norm(m: &M) -> M {
        M::L(list(m).iter().map(T::norm).collect())
    }
    fn rerep(m: &M, r: &mut Rng) -> M {
        M::L(list(m).iter().map(|x| T::rerep(x, r)).collect())
    }
    fn perturb(m: &M, r: &mut Rng) -> M {
        let mut v = list(m).to_vec();
        if N > 0 {
            let i = r.below(N * N);
            v[i] = T::perturb(&v[i], r);
        }
        M::L(v)
    }
}

fn add<T: Ring>(a: &T, b: &T) -> T {
    let mut s = a.clone();
    s += b;
    s
}
fn sub<T: Ring>(a: &T, b: &T) -> T {
    let mut s = a.clone();
    s -= b;
    s
}

fn check<T: G>(r: &mut Rng, l: &mut Log) -> Res {
    let name = T::name();
    let ma = T::gen(r);
    let mb = match r.below(8) {
        0 => T::perturb(&ma, r),
        1 => T::rerep(&ma, r),
        _ => T::gen(r),
    };
    let mc = match r.below(8) {
        0 => T::perturb(&mb, r),
        1 => T::rerep(&ma, r),
        _ => T::gen(r),
    };
    l.case(key_of(&(&name, &ma, &mb, &mc)), T::norm(&ma) != T::norm(&mb));
    l.count(&format!("type:{name}"), 1);
    l.sample(|| format!("{name}: {ma:?} {mb:?} {mc:?}"));
    let (a, b, c) = (T::build(&ma), T::build(&mb), T::build(&mc));
    macro_rules! law {
        ($txt:expr, $x:expr, $y:expr) => {{
            let (x, y): (T, T) = ($x, $y);
            l.count("laws", 1);
            ensure!(
                x == y && y == x && !(x != y),
                "{name}: {} fails for a={a:?} b={b:?} c={c:?}: {x:?} vs {y:?}", $txt
            );
        }};
    }
    let (z, o) = (T::zero(), T::one());
    law!("(a + b) + c == a + (b + c)", add(&add(&a, &b), &c), add(&a, &add(&b, &c)));
    law!("a + b == b + a", add(&a, &b), add(&b, &a));
    law!("a + 0 == a", add(&a, &z), a.clone());
    law!("0 + a == a", add(&z, &a), a.clone());
    law!("a + (-a) == 0", add(&a, &-a.clone()), z.clone());
    law!("(-a) + a == 0", add(&-a.clone(), &a), z.clone());
    law!("a - a == 0", sub(&a, &a), z.clone());
    law!("a - b == a + (-b)", sub(&a, &b), add(&a, &-b.clone()));
    law!("(a + b) - b == a", sub(&add(&a, &b), &b), a.clone());
    law!("(a - b) - a == -b", sub(&sub(&a, &b), &a), -b.clone());
    law!("0 - a == -a", sub(&z, &a), -a.clone());
    law!("-(-a) == a", -(-a.clone()), a.clone());
    law!("a * 1 == a", a.mul_refs(&o), a.clone());
    law!("1 * a == a", o.mul_refs(&a), a.clone());
    law!("a * 0 == 0", a.mul_refs(&z), z.clone());
    law!("0 * a == 0", z.mul_refs(&a), z.clone());
    law!("(a - a) * b == 0", sub(&a, &a).mul_refs(&b), z.clone());
    law!("b * (a - a) == 0", b.mul_refs(&sub(&a, &a)), z.clone());
    law!("(ab)c == a(bc)", a.mul_refs(&b).mul_refs(&c), a.mul_refs(&b.mul_refs(&c)));
    law!("a(b + c) == ab + ac", a.mul_refs(&add(&b, &c)), add(&a.mul_refs(&b), &a.mul_refs(&c)));
    law!("(a + b)c == ac + bc", add(&a, &b).mul_refs(&c), add(&a.mul_refs(&c), &b.mul_refs(&c)));
    law!("a(b - c) == ab - ac", a.mul_refs(&sub(&b, &c)), sub(&a.mul_refs(&b), &a.mul_refs(&c)));
    law!("(-a)b == -(ab)", (-a.clone()).mul_refs(&b), -a.mul_refs(&b));
    law!("a(-b) == -(ab)", a.mul_refs(&-b.clone()), -a.mul_refs(&b));
    law!("a == clone of a", a.clone(), a.clone());

    // equality is mathematical equality
    let forms = [ma.clone(), T::rerep(&ma, r), T::rerep(&ma, r)];
    for x in &forms {
        for y in &forms {
            l.count("equal_pairs", 1);
            let (u, v) = (T::build(x), T::build(y));
            ensure!(u == v && !(u != v), "{name}: representations of one value differ: {u:?} vs {v:?}");
        }
    }
    let p = T::perturb(&ma, r);
    for (x, y) in [(&ma, &p), (&ma, &mb), (&mb, &mc), (&ma, &mc)] {
        let (u, v) = (T::build(x), T::build(y));
        let want = T::norm(x) == T::norm(y);
        l.count(if want { "equal_pairs" } else { "unequal_pairs" }, 1);
        ensure!(
            (u == v) == want && (v == u) == want && (u != v) != want,
            "{name}: {u:?} == {v:?} gives {}, should be {want}", u == v
        );
        // a - b == 0 exactly if a == b
        let d = sub(&u, &v);
        ensure!((d == z) == want, "{name}: {u:?} - {v:?} == 0 gives {}, should be {want}", d == z);
    }
    Ok(())
}

fn main() {
    let run = Run::new(
        "C03",
        "a case is a triple of values of one ring type put through every axiom and equality test; \
         non-trivial if the first two differ mathematically",
    );
    run.require("laws", 100_000);
    run.require("unequal_pairs", 10_000);
    run.require("equal_pairs", 10_000);
    macro_rules! go {
        ($q:expr, $t:expr; $($ty:ty),* $(,)?) => {$(
            run.cases(&<$ty as G>::name(), run.n($q, $t), check::<$ty>);
        )*};
    }
    type PZ = Polynomial<Zp>;
    type CZ = Complex<Zp>;
    go!(1500, 60_000;
        Complex<Zp>, Complex<Nc>, Complex<i64>, Complex<f64>,
        Polynomial<Zp>, Polynomial<Nc>, Polynomial<f64>, Polynomial<i32>,
        SMatrix<Zp, 1, 1>, SMatrix<Zp, 2, 2>, SMatrix<Zp, 3, 3>, SMatrix<Nc, 2, 2>,
        SMatrix<i64, 2, 2>, SMatrix<f64, 3, 3>,
    );
    go!(500, 20_000;
        SMatrix<Zp, 0, 0>, SMatrix<Zp, 4, 4>, SMatrix<Zp, 5, 5>, SMatrix<Nc, 3, 3>, SMatrix<Zp, 7, 7>,
        Complex<CZ>, Complex<PZ>, Complex<SMatrix<Zp, 2, 2>>, Complex<SMatrix<Nc, 2, 2>>,
        Polynomial<CZ>, Polynomial<PZ>, Polynomial<SMatrix<Zp, 2, 2>>, Polynomial<Complex<Nc>>,
        SMatrix<CZ, 2, 2>, SMatrix<CZ, 3, 3>, SMatrix<PZ, 2, 2>, SMatrix<SMatrix<Zp, 2, 2>, 2, 2>,
        SMatrix<SMatrix<Zp, 3, 3>, 1, 1>, SMatrix<Complex<Nc>, 2, 2>,
    );
    go!(150, 6000;
        Polynomial<Polynomial<PZ>>, SMatrix<Polynomial<CZ>, 2, 2>, Complex<Polynomial<SMatrix<Zp, 2, 2>>>,
        Polynomial<SMatrix<PZ, 2, 2>>, Polynomial<Complex<SMatrix<Zp, 2, 2>>>, SMatrix<PZ, 3, 3>,
        Complex<Complex<CZ>>, SMatrix<Zp, 9, 9>, SMatrix<Complex<PZ>, 2, 2>,
    );
    go!(8, 100; SMatrix<Zp, 16, 16>, SMatrix<Zp, 17, 17>, SMatrix<Nc, 33, 33>, SMatrix<Zp, 64, 64>, SMatrix<Zp, 65, 65>);
    go!(300, 5000; Zp, Nc, i8, i16, i32, i64, i128, isize, f32, f64);
    run.finish()
}
