//! C16: expressions are lazy and evaluate each element exactly once.
//!
//! Every leaf function and every mapped function logs its calls; every
//! operation of the element type counts. Expectations are computed per entry
//! from the definition of the operations.
use harness::ensure;
use harness::expr::{BM, BV};
use harness::run::{caught, hash_str, Log, Res, Rng, Run};
use magnesia::algebra::Conj;
use magnesia::linalg::*;
use std::cell::{Cell, RefCell};
use std::ops::*;
use std::rc::Rc;

thread_local! {
    /// element operations (arithmetic, clones, literals) since the last reset
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static MULS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
const OVERRUN: &str = "more element operations than the limit";
fn tick() {
    let n = TICKS.get() + 1;
    TICKS.set(n);
    if n > LIMIT.get() {
        LIMIT.set(u64::MAX);
        panic!("{OVERRUN}");
    }
}
fn limit(n: u64) {
    TICKS.set(0);
    MULS.set(0);
    LIMIT.set(n);
}

/// counting element
#[derive(PartialEq, Debug)]
struct Cnt(i64);
impl Clone for Cnt {
    fn clone(&self) -> Cnt {
        tick();
        Cnt(self.0)
    }
}
macro_rules! op {
    ($t:ident $f:ident $e:expr) => {
        impl $t for Cnt {
            type Output = Cnt;
            fn $f(self, o: Cnt) -> Cnt {
                tick();
                let f: fn(i64, i64) -> i64 = $e;
                Cnt(f(self.0, o.0))
            }
        }
    };
}
op!(Add add |a, b| a.wrapping_add(b));
op!(Sub sub |a, b| a.wrapping_sub(b));
op!(Div div |a, b| a.wrapping_mul(31) ^ b);
impl Mul for Cnt {
    type Output = Cnt;
    fn mul(self, o: Cnt) -> Cnt {
        tick();
        MULS.set(MULS.get() + 1);
        Cnt(self.0.wrapping_mul(o.0))
    }
}
impl AddAssign for Cnt {
    fn add_assign(&mut self, o: Cnt) {
        tick();
        self.0 = self.0.wrapping_add(o.0);
    }
}
impl SubAssign for Cnt {
    fn sub_assign(&mut self, o: Cnt) {
        tick();
        self.0 = self.0.wrapping_sub(o.0);
    }
}
impl Conj for Cnt {
    fn conj(self) -> Cnt {
        tick();
        Cnt(!self.0)
    }
}
impl From<i8> for Cnt {
    fn from(i: i8) -> Cnt {
        tick();
        Cnt(i as i64)
    }
}

type Call = (usize, usize, usize);
type Deps = Rc<dyn Fn(usize, usize) -> Vec<Call>>;
#[derive(Clone)]
struct Rec(Rc<RefCell<Vec<Call>>>, Rc<Cell<usize>>);
impl Rec {
    fn id(&self) -> usize {
        self.1.set(self.1.get() + 1);
        self.1.get()
    }
    fn call(&self, c: Call) {
        tick();
        self.0.borrow_mut().push(c);
    }
}

struct XV {
    e: BV<'static, Cnt>,
    n: usize,
    deps: Deps,
    d: String,
}
struct XM {
    e: BM<'static, Cnt>,
    r: usize,
    c: usize,
    deps: Deps,
    d: String,
}

/// Builds a tree without evaluating anything. `owned`: owned leaves allowed.
struct B<'r> {
    rec: Rec,
    r: &'r mut Rng,
    owned: bool,
    big: bool,
}
/// runs f without counting (creation of leaves is not an operation under test)
fn off<R>(f: impl FnOnce() -> R) -> R {
    let (t, l, m) = (TICKS.get(), LIMIT.get(), MULS.get());
    LIMIT.set(u64::MAX);
    let x = f();
    TICKS.set(t);
    LIMIT.set(l);
    MULS.set(m);
    x
}
fn leak<T>(x: T) -> &'static T {
    LEAKED.with(|l| l.set(l.get() + 1));
    Box::leak(Box::new(x))
}
thread_local! { static LEAKED: Cell<u64> = const { Cell::new(0) }; }

fn join(a: &Deps, b: &Deps) -> Deps {
    let (a, b) = (a.clone(), b.clone());
    Rc::new(move |i, j| {
        let mut v = a(i, j);
        v.extend(b(i, j));
        v
    })
}
fn plus(a: &Deps, id: usize) -> Deps {
    let a = a.clone();
    Rc::new(move |i, j| {
        let mut v = a(i, j);
        v.push((id, 0, 0));
        v
    })
}
fn none() -> Deps {
    Rc::new(|_, _| vec![])
}

impl B<'_> {
    fn vec(&mut self, n: usize, depth: usize) -> XV {
        let k = if depth == 0 || self.r.chance(1, 8) { self.r.below(6) } else { 6 + self.r.below(11) };
        let rec = self.rec.clone();
        match k {
            0..=2 => {
                let id = rec.id();
                let e = make_vector_expr(n, move |i| {
                    rec.call((id, i, 0));
                    Cnt((i as i64).wrapping_mul(7).wrapping_add(id as i64))
                });
                XV { e: BV::new(e), n, deps: Rc::new(move |i, _| vec![(id, i, 0)]), d: format!("fn{id}") }
            }
            3 if self.owned => {
                let v = off(|| make_vector_expr(n, |i| Cnt(i as i64)).eval());
                let e = if self.r.chance(1, 2) { BV::new(v) } else { BV::new(leak(v)) };
                XV { e, n, deps: none(), d: "owned".into() }
            }
            4 => XV { e: BV::new(DVector::same(n, Cnt(4))), n, deps: none(), d: "same".into() },
            3 | 5 => {
                let z = self.r.chance(1, 2);
                let e = if z { BV::new(DVector::<Cnt>::zeros(n)) } else { BV::new(DVector::<Cnt>::ones(n)) };
                XV { e, n, deps: none(), d: if z { "zeros" } else { "ones" }.into() }
            }
            6 | 7 => {
                let x = self.vec(n, depth - 1);
                let id = rec.id();
                let e = x.e.wrap().map(move |y| {
                    rec.call((id, 0, 0));
                    Cnt(y.0 ^ 5)
                });
                XV { e: BV::new(e), n, deps: plus(&x.deps, id), d: format!("{}.map{id}", x.d) }
            }
            8 => {
                let x = self.vec(n, depth - 1);
                XV { e: BV::new(x.e.wrap().conj()), n, deps: x.deps, d: format!("{}.conj", x.d) }
            }
            9 => {
                let (a, b) = if self.big { (n, n) } else { let t = self.r.below(3); if self.r.chance(1, 2) { (n, n + t) } else { (n + t, n) } };
                let x = self.mat(a, b, depth - 1);
                let d = x.deps;
                XV { e: BV::new(x.e.wrap().diag()), n, deps: Rc::new(move |i, _| d(i, i)), d: format!("{}.diag", x.d) }
            }
            10 => {
                let x = self.vec(n, depth - 1);
                XV { e: BV::new(x.e.wrap().wrap()), n, deps: x.deps, d: format!("{}.wrap", x.d) }
            }
            16 => {
                let y = self.vec(n, depth - 1);
                if !self.owned {
                    return y;
                }
                let v: &'static DVector<Cnt> = leak(off(|| make_vector_expr(n, |i| Cnt(i as i64)).eval()));
                let w = self.r.below(6);
                let (e, deps) = match w {
                    0 => (BV::new(v + y.e), y.deps),
                    1 => (BV::new(v - y.e), y.deps),
                    2 => (BV::new(v.mul_elemwise(y.e)), y.deps),
                    3 => (BV::new(v.div_elemwise(y.e)), y.deps),
                    4 => (BV::new(v.conj()), none()),
                    _ => (BV::new(v.diag().diag()), none()),
                };
                XV { e, n, deps, d: format!("(&owned op{w} {})", y.d) }
            }
            _ => {
                let x = self.vec(n, depth - 1);
                let y = self.vec(n, depth - 1);
                let deps = join(&x.deps, &y.deps);
                let d = format!("({} op{k} {})", x.d, y.d);
                let l = x.e.wrap();
                let e = match k {
                    11 => BV::new(l + y.e),
                    12 => BV::new(l - y.e),
                    13 => BV::new(l.mul_elemwise(y.e)),
                    14 => BV::new(l.div_elemwise(y.e)),
                    _ => {
                        let id = rec.id();
                        let e = l.zip(y.e).map(move |(p, q)| {
                            rec.call((id, 0, 0));
                            Cnt(p.0 ^ q.0)
                        });
                        return XV { e: BV::new(e), n, deps: plus(&deps, id), d };
                    }
                };
                XV { e, n, deps, d }
            }
        }
    }

    fn mat(&mut self, r: usize, c: usize, depth: usize) -> XM {
        let mut k = if depth == 0 || self.r.chance(1, 8) { self.r.below(7) } else { 7 + self.r.below(13) };
        if (k == 5 || k == 11) && r != c {
            k = 0;
        }
        let rec = self.rec.clone();
        match k {
            0..=2 => {
                let id = rec.id();
                let e = make_matrix_expr(r, c, move |i, j| {
                    rec.call((id, i, j));
                    Cnt((i as i64).wrapping_mul(7).wrapping_add(j as i64))
                });
                XM { e: BM::new(e), r, c, deps: Rc::new(move |i, j| vec![(id, i, j)]), d: format!("fn{id}") }
            }
            3 if self.owned => {
                let v = off(|| make_matrix_expr(r, c, |i, j| Cnt((i * j) as i64)).eval());
                let e = if self.r.chance(1, 2) { BM::new(v) } else { BM::new(leak(v)) };
                XM { e, r, c, deps: none(), d: "owned".into() }
            }
            4 => XM { e: BM::new(DMatrix::same(r, c, Cnt(4))), r, c, deps: none(), d: "same".into() },
            5 => XM { e: BM::new(DMatrix::<Cnt>::eye(r)), r, c, deps: none(), d: "eye".into() },
            3 | 6 => {
                let z = self.r.chance(1, 2);
                let e = if z { BM::new(DMatrix::<Cnt>::zeros(r, c)) } else { BM::new(DMatrix::<Cnt>::ones(r, c)) };
                XM { e, r, c, deps: none(), d: if z { "zeros" } else { "ones" }.into() }
            }
            7 | 8 => {
                let x = self.mat(r, c, depth - 1);
                let id = rec.id();
                let e = x.e.wrap().map(move |y| {
                    rec.call((id, 0, 0));
                    Cnt(y.0 ^ 5)
                });
                XM { e: BM::new(e), r, c, deps: plus(&x.deps, id), d: format!("{}.map{id}", x.d) }
            }
            9 | 10 => {
                let x = self.mat(c, r, depth - 1);
                let d = x.deps;
                let deps: Deps = Rc::new(move |i, j| d(j, i));
                if k == 9 {
                    XM { e: BM::new(x.e.wrap().t()), r, c, deps, d: format!("{}.t", x.d) }
                } else {
                    XM { e: BM::new(x.e.wrap().h()), r, c, deps, d: format!("{}.h", x.d) }
                }
            }
            11 => {
                let x = self.vec(r, depth - 1);
                let d = x.deps;
                let deps: Deps = Rc::new(move |i, j| if i == j { d(i, 0) } else { vec![] });
                XM { e: BM::new(x.e.wrap().diag()), r, c, deps, d: format!("{}.diag", x.d) }
            }
            12 => {
                let x = self.mat(r, c, depth - 1);
                XM { e: BM::new(x.e.wrap().wrap()), r, c, deps: x.deps, d: format!("{}.wrap", x.d) }
            }
            13 => {
                // inherent methods of an owned matrix
                if !self.owned {
                    return self.mat(r, c, depth - 1);
                }
                let m: &'static DMatrix<Cnt> = leak(off(|| make_matrix_expr(c, r, |i, j| Cnt((i * j) as i64)).eval()));
                if self.r.chance(1, 2) {
                    XM { e: BM::new(m.t()), r, c, deps: none(), d: "(&owned).t".into() }
                } else {
                    XM { e: BM::new(m.h()), r, c, deps: none(), d: "(&owned).h".into() }
                }
            }
            14 => {
                let y = self.mat(r, c, depth - 1);
                if !self.owned {
                    return y;
                }
                let m: &'static DMatrix<Cnt> = leak(off(|| make_matrix_expr(r, c, |i, j| Cnt((i * j) as i64)).eval()));
                let w = self.r.below(4);
                let e = match w {
                    0 => BM::new(m + y.e),
                    1 => BM::new(m - y.e),
                    2 => BM::new(m.mul_elemwise(y.e)),
                    _ => BM::new(m.div_elemwise(y.e)),
                };
                XM { e, r, c, deps: y.deps, d: format!("(&owned op{w} {})", y.d) }
            }
            _ => {
                let x = self.mat(r, c, depth - 1);
                let y = self.mat(r, c, depth - 1);
                let deps = join(&x.deps, &y.deps);
                let d = format!("({} op{k} {})", x.d, y.d);
                let l = x.e.wrap();
                let e = match k {
                    15 => BM::new(l + y.e),
                    16 => BM::new(l - y.e),
                    17 => BM::new(l.mul_elemwise(y.e)),
                    18 => BM::new(l.div_elemwise(y.e)),
                    _ => {
                        let id = rec.id();
                        let e = l.zip(y.e).map(move |(p, q)| {
                            rec.call((id, 0, 0));
                            Cnt(p.0 ^ q.0)
                        });
                        return XM { e: BM::new(e), r, c, deps: plus(&deps, id), d };
                    }
                };
                XM { e, r, c, deps, d }
            }
        }
    }
}

fn take(rec: &Rec) -> Vec<Call> {
    let mut v = std::mem::take(&mut *rec.0.borrow_mut());
    v.sort_unstable();
    v
}
/// the first call made too often, or missing
fn differ(got: &[Call], want: &[Call]) -> String {
    if got.len() + want.len() < 40 {
        return format!("{got:?}, want exactly {want:?}");
    }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("functions {} times, want {} times; first difference {:?} against {:?}", got.len(), want.len(), got.get(k), want.get(k))
}
fn subset(got: &[Call], want: &[Call]) -> bool {
    got.iter().all(|c| want.contains(c))
}

/// element operations an honest reading of one entry may need per node
const PER_ENTRY: u64 = 4000;

fn vector(r: &mut Rng, l: &mut Log, n: usize, depth: usize, big: bool) -> Res {
    let rec = Rec(Rc::default(), Rc::default());
    let seed = r.u64();
    limit(0);
    let x = caught(|| B { rec: rec.clone(), r: &mut Rng::new(seed), owned: !big && n <= 200, big }.vec(n, depth));
    let built = TICKS.get();
    limit(u64::MAX);
    let x = match x {
        Ok(x) => x,
        Err(p) => return Err(format!("building a vector expression of length {n} evaluates elements: {p}")),
    };
    let d = &x.d;
    ensure!(built == 0, "building {d} of length {n} performed {built} element operations");
    ensure!(x.e.len() == n && x.n == n, "{d}: length {}, want {n}", x.e.len());
    ensure!(TICKS.get() == 0, "asking for the length of {d} performed element operations");
    l.case(hash_str(&format!("{n} {d}")), d.contains("fn"));
    l.count("vector_expressions", 1);
    l.sample(|| format!("length {n}: {d}"));
    if n > 0 {
        for _ in 0..3 {
            let i = match r.below(3) {
                0 => 0,
                1 => n - 1,
                _ => r.below(n),
            };
            limit(PER_ENTRY);
            let e = caught(|| x.e.entry(i));
            limit(u64::MAX);
            ensure!(e.is_ok(), "entry({i}) of {d} (length {n}) {}", e.unwrap_err());
            let (got, want) = (take(&rec), (x.deps)(i, 0));
            l.count("calls", got.len() as u64);
            l.count("entries_read", 1);
            ensure!(subset(&got, &want), "entry({i}) of {d} (length {n}) calls {got:?}, defined from {want:?}");
        }
    }
    if !big {
        let mut want: Vec<Call> = (0..n).flat_map(|i| (x.deps)(i, 0)).collect();
        want.sort_unstable();
        let d = x.d.clone();
        x.e.eval();
        let got = take(&rec);
        l.count("calls", got.len() as u64);
        l.count("evaluations", 1);
        ensure!(got == want, "evaluating {d} (length {n}) calls {}", differ(&got, &want));
    }
    Ok(())
}

fn matrix(r: &mut Rng, l: &mut Log, a: usize, b: usize, depth: usize, big: bool) -> Res {
    let rec = Rec(Rc::default(), Rc::default());
    let seed = r.u64();
    limit(0);
    let x = caught(|| B { rec: rec.clone(), r: &mut Rng::new(seed), owned: !big && a.max(b) <= 200, big }.mat(a, b, depth));
    let built = TICKS.get();
    limit(u64::MAX);
    let x = match x {
        Ok(x) => x,
        Err(p) => return Err(format!("building a {a}x{b} matrix expression evaluates elements: {p}")),
    };
    let d = &x.d;
    ensure!(built == 0, "building {d} ({a}x{b}) performed {built} element operations");
    ensure!(x.e.num_rows() == a && x.e.num_cols() == b && x.r == a && x.c == b, "{d}: shape {}x{}, want {a}x{b}", x.e.num_rows(), x.e.num_cols());
    ensure!(TICKS.get() == 0, "asking for the shape of {d} performed element operations");
    l.case(hash_str(&format!("{a}x{b} {d}")), d.contains("fn"));
    l.count("matrix_expressions", 1);
    l.sample(|| format!("{a}x{b}: {d}"));
    if a > 0 && b > 0 {
        for _ in 0..4 {
            let mut pick = |n: usize| match r.below(3) {
                0 => 0,
                1 => n - 1,
                _ => r.below(n),
            };
            let (i, mut j) = (pick(a), pick(b));
            if r.chance(1, 3) && i < b {
                j = i;
            }
            limit(PER_ENTRY);
            let e = caught(|| x.e.entry(i, j));
            limit(u64::MAX);
            ensure!(e.is_ok(), "entry({i},{j}) of {d} ({a}x{b}) {}", e.unwrap_err());
            let (got, want) = (take(&rec), (x.deps)(i, j));
            l.count("calls", got.len() as u64);
            l.count("entries_read", 1);
            ensure!(subset(&got, &want), "entry({i},{j}) of {d} ({a}x{b}) calls {got:?}, defined from {want:?}");
        }
    }
    if !big {
        let mut want: Vec<Call> = vec![];
        for i in 0..a {
            for j in 0..b {
                want.extend((x.deps)(i, j));
            }
        }
        want.sort_unstable();
        let d = x.d.clone();
        x.e.eval();
        let got = take(&rec);
        l.count("calls", got.len() as u64);
        l.count("evaluations", 1);
        ensure!(got == want, "evaluating {d} ({a}x{b}) calls {}", differ(&got, &want));
    }
    Ok(())
}

/// += and -= with a lazy operand evaluate each of its entries exactly once
fn assigned(r: &mut Rng, l: &mut Log) -> Res {
    let rec = Rec(Rc::default(), Rc::default());
    let seed = r.u64();
    let depth = r.below(3);
    let sub = r.chance(1, 2);
    let small = r.chance(2, 3);
    if r.chance(1, 2) {
        let n = if small { r.below(9) } else { r.below(200) };
        let x = B { rec: rec.clone(), r: &mut Rng::new(seed), owned: true, big: false }.vec(n, depth);
        let mut want: Vec<Call> = (0..n).flat_map(|i| (x.deps)(i, 0)).collect();
        want.sort_unstable();
        let mut t = off(|| make_vector_expr(n, |i| Cnt(i as i64)).eval());
        if sub {
            t -= x.e;
        } else {
            t += x.e;
        }
        let got = take(&rec);
        l.case(hash_str(&format!("{n} {sub} {}", x.d)), !want.is_empty());
        ensure!(got == want, "{} {} (length {n}) calls {}", if sub { "-=" } else { "+=" }, x.d, differ(&got, &want));
    } else {
        let m = if small { 6 } else { 40 };
        let (a, b) = (r.below(m), r.below(m));
        let x = B { rec: rec.clone(), r: &mut Rng::new(seed), owned: true, big: false }.mat(a, b, depth);
        let mut want: Vec<Call> = (0..a * b).flat_map(|i| (x.deps)(i / b, i % b)).collect();
        want.sort_unstable();
        let mut t = off(|| make_matrix_expr(a, b, |i, j| Cnt((i ^ j) as i64)).eval());
        if sub {
            t -= x.e;
        } else {
            t += x.e;
        }
        let got = take(&rec);
        l.case(hash_str(&format!("{a} {b} {sub} {}", x.d)), !want.is_empty());
        ensure!(got == want, "{} {} ({a}x{b}) calls {}", if sub { "-=" } else { "+=" }, x.d, differ(&got, &want));
    }
    l.count("assignments", 1);
    Ok(())
}

/// building a product computes nothing, reading one entry one row times one column
fn product(r: &mut Rng, l: &mut Log) -> Res {
    let [m, k, n] = [0; 3].map(|_| 1 + r.below(12));
    let a = make_matrix_expr(m, k, |i, j| Cnt((i * 13 + j) as i64)).eval();
    let b = make_matrix_expr(k, n, |i, j| Cnt((i * 17 + j) as i64)).eval();
    limit(u64::MAX);
    let p = &a * &b;
    ensure!(TICKS.get() == 0, "building a {m}x{k}x{n} product performed {} element operations", TICKS.get());
    let (i, j) = (r.below(m), r.below(n));
    limit(u64::MAX);
    let e = p.entry(i, j);
    let w = (0..k).fold(0i64, |s, q| s + (i * 13 + q) as i64 * (q * 17 + j) as i64);
    ensure!(e.0 == w, "entry ({i},{j}) of a {m}x{k}x{n} product: {}, want {w}", e.0);
    ensure!(
        MULS.get() <= k as u64 && TICKS.get() <= 8 * k as u64 + 8,
        "reading one entry of a {m}x{k}x{n} product performed {} multiplications, {} element operations", MULS.get(), TICKS.get()
    );
    limit(u64::MAX);
    p.eval();
    ensure!(MULS.get() <= (m * k * n) as u64, "evaluating a {m}x{k}x{n} product performed {} multiplications", MULS.get());
    l.case(hash_str(&format!("{m} {k} {n} {i} {j}")), true);
    l.count("products", 1);
    Ok(())
}

fn main() {
    let run = Run::new(
        "C16",
        "a case is a random expression tree over logging functions and counting elements, built, read at a few \
         positions and (if small) evaluated; non-trivial if it contains a logging function",
    );
    for (k, n) in [("vector_expressions", 1000), ("matrix_expressions", 1000), ("calls", 50_000), ("evaluations", 2000), ("entries_read", 5000), ("products", 300)] {
        run.require(k, n);
    }
    run.cases("vectors", run.n(2000, 60_000), |r, l| {
        let n = r.below(9);
        let d = r.below(5);
        vector(r, l, n, d, false)
    });
    run.cases("matrices", run.n(2000, 60_000), |r, l| {
        let (a, b) = (r.below(6), r.below(6));
        let b = if r.chance(1, 3) { a } else { b };
        let d = r.below(5);
        matrix(r, l, a, b, d, false)
    });
    run.require("large_evaluations", 200);
    run.cases("large-vectors", run.n(5, 200), |r, l| {
        let n = if r.chance(1, 8) { r.huge() } else { 9 + r.below(900) };
        let d = r.below(3);
        l.count("large_evaluations", 1);
        vector(r, l, n, d, false)
    });
    run.cases("large-matrices", run.n(8, 200), |r, l| {
        let (a, b) = match r.below(9) {
            0 => r.huge_shape(),
            1..=2 => (1 + r.below(5), 5 + r.below(900)),
            3..=4 => (5 + r.below(900), 1 + r.below(5)),
            5..=6 => {
                let n = 6 + r.below(130);
                (n, n)
            }
            _ => (6 + r.below(130), 6 + r.below(130)),
        };
        let d = r.below(3);
        l.count("large_evaluations", 1);
        matrix(r, l, a, b, d, false)
    });
    let sizes = [usize::MAX, usize::MAX - 1, 1 << 40, 1 << 63, (1 << 32) + 1, i64::MAX as usize];
    run.cases("astronomical-vectors", run.n(500, 20_000), |r, l| {
        let n = r.pick(&sizes);
        let d = r.below(4);
        vector(r, l, n, d, true)
    });
    run.cases("astronomical-matrices", run.n(500, 20_000), |r, l| {
        let a = r.pick(&sizes);
        let b = if r.chance(1, 2) { a } else { r.pick(&sizes) };
        let d = r.below(4);
        matrix(r, l, a, b, d, true)
    });
    run.require("assignments", 500);
    run.cases("assignments", run.n(100, 3000), assigned);
    run.cases("products", run.n(100, 3000), product);
    run.finish()
}
