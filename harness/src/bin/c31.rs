//! C31: operations cost what their definition costs: element operations,
//! allocated memory and stack.
//!
//! Elements count their own arithmetic, clones and comparisons; a counting
//! global allocator sees every temporary; worker threads with a small stack
//! see recursion.
#![recursion_limit = "512"]
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Conj, Field, Polynomial, Ring};
use magnesia::linalg::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ops::*;

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static MULS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
fn took(n: usize) {
    BYTES.set(BYTES.get() + n as u64);
    freed(-(n as i64));
}
fn freed(n: i64) {
    let l = LIVE.get() - n;
    LIVE.set(l);
    if l > PEAK.get() {
        PEAK.set(l);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        freed(l.size() as i64);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        freed(l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Debug)]
struct Ct(i64);
fn tick() {
    TICKS.set(TICKS.get() + 1);
}
fn times() {
    tick();
    MULS.set(MULS.get() + 1);
}
impl Clone for Ct {
    fn clone(&self) -> Ct {
        tick();
        Ct(self.0)
    }
}
impl PartialEq for Ct {
    fn eq(&self, o: &Ct) -> bool {
        tick();
        self.0 == o.0
    }
}
impl From<i8> for Ct {
    fn from(x: i8) -> Ct {
        tick();
        Ct(x as i64)
    }
}
impl Conj for Ct {
    fn conj(self) -> Ct {
        tick();
        self
    }
}
impl Neg for Ct {
    type Output = Ct;
    fn neg(self) -> Ct {
        tick();
        Ct(self.0.wrapping_neg())
    }
}
macro_rules! ops {
    ($t:ident $f:ident $at:ident $af:ident $g:ident $count:ident) => {
        impl $t for Ct {
            type Output = Ct;
            fn $f(self, o: Ct) -> Ct {
                $count();
                Ct($g(self.0, o.0))
            }
        }
        impl $t<&Ct> for Ct {
            type Output = Ct;
            fn $f(self, o: &Ct) -> Ct {
                $count();
                Ct($g(self.0, o.0))
            }
        }
        impl $t<Ct> for &Ct {
            type Output = Ct;
            fn $f(self, o: Ct) -> Ct {
                $count();
                Ct($g(self.0, o.0))
            }
        }
        impl $t<&Ct> for &Ct {
            type Output = Ct;
            fn $f(self, o: &Ct) -> Ct {
                $count();
                Ct($g(self.0, o.0))
            }
        }
        impl $at for Ct {
            fn $af(&mut self, o: Ct) {
                $count();
                self.0 = $g(self.0, o.0);
            }
        }
        impl $at<&Ct> for Ct {
            fn $af(&mut self, o: &Ct) {
                $count();
                self.0 = $g(self.0, o.0);
            }
        }
    };
}
fn w_add(a: i64, b: i64) -> i64 {
    a.wrapping_add(b)
}
fn w_sub(a: i64, b: i64) -> i64 {
    a.wrapping_sub(b)
}
fn w_mul(a: i64, b: i64) -> i64 {
    a.wrapping_mul(b)
}
fn w_div(a: i64, b: i64) -> i64 {
    a.wrapping_mul(31) ^ b
}
ops!(Add add AddAssign add_assign w_add tick);
ops!(Sub sub SubAssign sub_assign w_sub tick);
ops!(Mul mul MulAssign mul_assign w_mul times);
ops!(Div div DivAssign div_assign w_div times);
impl Ring for Ct {}
impl Field for Ct {}

/// element operations, multiplications, bytes allocated, peak of live bytes
#[derive(Clone, Copy, Debug)]
struct Cost {
    ticks: u64,
    muls: u64,
    bytes: u64,
    peak: i64,
}
fn cost<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    TICKS.set(0);
    MULS.set(0);
    BYTES.set(0);
    PEAK.set(LIVE.get());
    let before = LIVE.get();
    let r = f();
    let c = Cost { ticks: TICKS.get(), muls: MULS.get(), bytes: BYTES.get(), peak: PEAK.get() - before };
    (r, c)
}
const E: u64 = std::mem::size_of::<Ct>() as u64;

/// `ops`: element operations of the definition, `muls`: multiplications among
/// them, `entries`: entries of operands and result together
fn within(l: &mut Log, what: &str, shape: &[usize], c: Cost, ops: u64, muls: u64, entries: u64) -> Res {
    ensure!(c.ticks <= 8 * (ops + entries) + 64, "{what} {shape:?}: {} element operations, the definition has {ops}", c.ticks);
    ensure!(c.muls <= 2 * (muls + entries) + 32, "{what} {shape:?}: {} multiplications, the definition has {muls}", c.muls);
    ensure!(c.bytes <= 8 * entries * E + 4096, "{what} {shape:?}: {} bytes allocated for {entries} entries", c.bytes);
    ensure!(c.peak as u64 <= 6 * entries * E + 4096, "{what} {shape:?}: {} bytes in use at once for {entries} entries", c.peak);
    l.count("operations measured", 1);
    l.count("element operations observed", c.ticks);
    l.count("bytes observed", c.bytes);
    l.max("element operations in one call", c.ticks);
    l.case(key_of(&(what, shape)), ops > 16);
    Ok(())
}
fn list(r: &mut Rng, n: usize) -> Vec<Ct> {
    (0..n).map(|_| Ct(r.range(-9, 9))).collect()
}
fn vec(r: &mut Rng, n: usize) -> DVector<Ct> {
    let v = list(r, n);
    (&v[..]).eval()
}
fn mat(r: &mut Rng, m: usize, n: usize) -> DMatrix<Ct> {
    let v = list(r, m * n);
    make_matrix_expr(m, n, |i, j| Ct(v[i * n + j].0)).eval()
}
fn some(r: &mut Rng, max: usize) -> usize {
    match r.below(4) {
        0 => r.below(4),
        1 => r.below(20),
        2 => r.below(max / 4 + 1),
        _ => r.below(max + 1),
    }
}

fn polynomials(r: &mut Rng, l: &mut Log) -> Res {
    let (n, m) = (some(r, 200), some(r, 200));
    let (un, um) = (n as u64, m as u64);
    let (a, b) = (list(r, n), list(r, m));
    let p = || Polynomial::from_coefficients(a.iter().map(|c| Ct(c.0)).collect());
    let q = || Polynomial::from_coefficients(b.iter().map(|c| Ct(c.0)).collect());
    let s = [n, m];
    let (p1, c) = cost(&p);
    within(l, "polynomial from coefficients", &s[..1], c, un, 0, un)?;
    let q1 = q();
    let (_, c) = cost(|| p1.eval(Ct(3)));
    within(l, "polynomial at a value", &s[..1], c, 2 * un, un, un)?;
    let x = Ct(-2);
    let (_, c) = cost(|| p1.eval_ref(&x));
    within(l, "polynomial at a reference", &s[..1], c, 2 * un, un, un)?;
    let (_, c) = cost(|| p1 == q1);
    within(l, "polynomial == another", &s, c, un + um, 0, un + um)?;
    let p2 = p();
    let (_, c) = cost(|| p1 == p2);
    within(l, "polynomial == equal one", &s[..1], c, un, 0, 2 * un)?;
    let prod = un * um;
    let (_, c) = cost(|| &p1 * &q1);
    within(l, "product of polynomial references", &s, c, 2 * prod, prod, 2 * (un + um))?;
    let ((x, y), (z, w), (u, v)) = ((p(), q()), (p(), q()), (p(), q()));
    let (_, c) = cost(|| x * y);
    within(l, "product of polynomials", &s, c, 2 * prod, prod, 2 * (un + um))?;
    let (_, c) = cost(|| { let mut z = z; z *= w; z });
    within(l, "polynomial *=", &s, c, 2 * prod, prod, 2 * (un + um))?;
    let (_, c) = cost(|| u + v);
    within(l, "sum of polynomials", &s, c, un + um, 0, 2 * (un + um))?;
    let (u, v) = (p(), q());
    let (_, c) = cost(|| u - v);
    within(l, "difference of polynomials", &s, c, un + um, 0, 2 * (un + um))?;
    for k in 0..4 {
        let (mut u, v) = (p(), q());
        let (_, c) = match k {
            0 => cost(|| u += v),
            1 => cost(|| u += &v),
            2 => cost(|| u -= v),
            _ => cost(|| u -= &v),
        };
        within(l, ["p += q", "p += &q", "p -= q", "p -= &q"][k], &s, c, un + um, 0, 2 * (un + um))?;
    }
    let u = p();
    let (_, c) = cost(|| -u);
    within(l, "negated polynomial", &s[..1], c, un, 0, 2 * un)
}

fn vectors(r: &mut Rng, l: &mut Log) -> Res {
    let n = some(r, 2000);
    let k = n as u64;
    let (u, v, w) = (vec(r, n), vec(r, n), vec(r, n));
    let s = [n];
    let (_, c) = cost(|| u.clone());
    within(l, "cloned vector", &s, c, k, 0, k)?;
    let (_, c) = cost(|| u == v);
    within(l, "u == v", &s, c, k, 0, k)?;
    let (_, c) = cost(|| &u * &v);
    within(l, "&u * &v", &s, c, 3 * k, k, 2 * k)?;
    let (x, y) = (u.clone(), v.clone());
    let (_, c) = cost(|| x * y);
    within(l, "u * v", &s, c, 3 * k, k, 2 * k)?;
    let (e, c) = cost(|| (&u + &v).mul_elemwise(&w) - u.conj().div_elemwise(&v));
    within(l, "building an expression over vectors", &s, c, 0, 0, 0)?;
    if n > 0 {
        let i = r.below(n);
        let (_, c) = cost(|| e.entry(i));
        within(l, "one entry of an expression over vectors", &s, c, 10, 2, 5)?;
    }
    let (_, c) = cost(|| e.eval());
    within(l, "evaluating an expression over vectors", &s, c, 10 * k, 2 * k, k)?;
    let mut t = u.clone();
    let (_, c) = cost(|| t += &v);
    within(l, "u += &v", &s, c, 2 * k, 0, k)?;
    let (_, c) = cost(|| t -= v.mul_elemwise(&w));
    within(l, "u -= v.mul_elemwise(w)", &s, c, 4 * k, k, k)?;
    let (_, c) = cost(|| DVector::<Ct>::zeros(n).eval());
    within(l, "zeros", &s, c, k, 0, k)?;
    let (d, c) = cost(|| u.diag());
    within(l, "building a diagonal matrix", &s, c, 0, 0, 0)?;
    if n > 0 {
        let (i, j) = (r.below(n), r.below(n));
        let (_, c) = cost(|| d.entry(i, j));
        within(l, "one entry of a diagonal matrix", &s, c, 2, 0, 1)?;
    }
    if n <= 40 {
        let (_, c) = cost(|| d.eval());
        within(l, "evaluating a diagonal matrix", &s, c, k * k, 0, k * k)?;
    }
    Ok(())
}

fn matrices(r: &mut Rng, l: &mut Log) -> Res {
    // inner dimension 0 belongs to C14
    let (m, k, n) = (some(r, 28), 1 + some(r, 28), some(r, 28));
    let [um, uk, un] = [m as u64, k as u64, n as u64];
    let (a, b, x) = (mat(r, m, k), mat(r, k, n), mat(r, m, k));
    let s = [m, k, n];
    let all = um * uk + uk * un + um * un;
    let prod = um * uk * un;
    let (_, c) = cost(|| &a * &b);
    within(l, "building a matrix product", &s, c, 0, 0, 0)?;
    let (_, c) = cost(|| (&a * &b).eval());
    within(l, "matrix product", &s, c, 4 * prod, prod, all)?;
    if m * n > 0 {
        let (i, j) = (r.below(m), r.below(n));
        let p = &a * &b;
        let (_, c) = cost(|| p.entry(i, j));
        within(l, "one entry of a matrix product", &s, c, 4 * uk, uk, 2 * uk)?;
    }
    let e = um * uk;
    let s = [m, k];
    let (_, c) = cost(|| a.clone());
    within(l, "cloned matrix", &s, c, e, 0, e)?;
    let (_, c) = cost(|| a == x);
    within(l, "a == b", &s, c, e, 0, e)?;
    let (f, c) = cost(|| ((&a + &x).mul_elemwise(&a) - a.div_elemwise(&x)).h());
    within(l, "building an expression over matrices", &s, c, 0, 0, 0)?;
    if m * k > 0 {
        let (i, j) = (r.below(k), r.below(m));
        let (_, c) = cost(|| f.entry(i, j));
        within(l, "one entry of an expression over matrices", &s, c, 10, 2, 5)?;
    }
    let (_, c) = cost(|| f.eval());
    within(l, "evaluating an expression over matrices", &s, c, 10 * e, 2 * e, e)?;
    let (_, c) = cost(|| a.t().eval());
    within(l, "transposed matrix", &s, c, e, 0, e)?;
    let (_, c) = cost(|| a.diag().eval());
    within(l, "diagonal of a matrix", &s, c, um.min(uk), 0, um.min(uk))?;
    let (_, c) = cost(|| (&a + &x).diag().eval());
    within(l, "diagonal of a sum", &s, c, 3 * um.min(uk), 0, um.min(uk))?;
    let mut t = a.clone();
    let (_, c) = cost(|| t += &x);
    within(l, "a += &b", &s, c, 2 * e, 0, e)?;
    let (_, c) = cost(|| t -= x.mul_elemwise(&a));
    within(l, "a -= b.mul_elemwise(c)", &s, c, 4 * e, e, e)?;
    let (_, c) = cost(|| DMatrix::<Ct>::eye(k).eval());
    within(l, "eye", &[k], c, uk * uk, 0, uk * uk)
}

/// every way to start or extend an expression, one at a time, over operands
/// large enough that a copy of one of them cannot pass for a constant
fn building(r: &mut Rng, l: &mut Log) -> Res {
    let n = 600 + r.below(3000);
    let (u, w, held) = (&vec(r, n), &vec(r, n), &list(r, n)[..]);
    let owned = || u.clone();
    macro_rules! vectors {
        ($($name:literal $pre:expr, |$x:ident| $e:expr;)*) => { $( {
            let $x = $pre;
            let (e, c) = cost(move || $e);
            within(l, concat!("building ", $name), &[n], c, 0, 0, 0)?;
            let (i, len) = (r.below(n), e.len());
            ensure!(len == n, "{}: length {len}", $name);
            let (_, c) = cost(|| e.entry(i));
            within(l, concat!("one entry of ", $name), &[n], c, 4, 1, 0)?;
            let ((), c) = cost(|| drop(e));
            within(l, concat!("dropping ", $name), &[n], c, 0, 0, 0)?;
            let $x = $pre;
            let e = $e;
            let (_, c) = cost(|| e.eval());
            within(l, concat!("evaluating ", $name), &[n], c, 4 * n as u64, n as u64, n as u64)?;
            l.count("single operations", 1);
        } )* };
    }
    vectors! {
        "&u" (), |_x| u.wrap();
        "u" owned(), |x| x.wrap();
        "a slice" (), |_x| held.wrap();
        "rewrapped &u" (), |_x| u.wrap().wrap();
        "&u + &w" (), |_x| u + w;
        "&u - &w" (), |_x| u - w;
        "u + w" (owned(), owned()), |x| x.0.wrap() + x.1;
        "u - &w" owned(), |x| x.wrap() - w;
        "&u + w" owned(), |x| u + x;
        "u.conj" (), |_x| u.conj();
        "u.wrap.conj" owned(), |x| x.wrap().conj();
        "u.mul_elemwise(&w)" (), |_x| u.mul_elemwise(w);
        "u.div_elemwise(&w)" (), |_x| u.div_elemwise(w);
        "u.mul_elemwise(w)" owned(), |x| u.mul_elemwise(x);
        "u.div_elemwise(w)" owned(), |x| u.div_elemwise(x);
        "u.wrap.mul_elemwise" owned(), |x| x.wrap().mul_elemwise(w);
        "u.wrap.div_elemwise" owned(), |x| x.wrap().div_elemwise(w);
        "map" (), |_x| u.wrap().map(|x| -x);
        "map of owned" owned(), |x| x.wrap().map(|x| -x);
        "zip" (), |_x| u.wrap().zip(w).map(|(x, _)| x);
        "zip of owned" (owned(), owned()), |x| x.0.wrap().zip(x.1).map(|(_, y)| y);
        "zeros" (), |_x| DVector::<Ct>::zeros(n);
        "ones" (), |_x| DVector::<Ct>::ones(n);
        "same" Ct(4), |x| DVector::<Ct>::same(n, x);
        "a function" (), |_x| make_vector_expr(n, |i| Ct(i as i64));
        "the diagonal of a diagonal matrix" (), |_x| u.diag().diag();
    }
    let (d, c) = cost(|| u.diag());
    within(l, "building u.diag", &[n], c, 0, 0, 0)?;
    let (i, j) = (r.below(n), r.below(n));
    let (_, c) = cost(|| (d.entry(i, j), d.entry(i, i)));
    within(l, "two entries of u.diag", &[n], c, 4, 0, 0)?;
    let x = owned();
    let (d, c) = cost(|| x.wrap().diag());
    within(l, "building u.wrap.diag", &[n], c, 0, 0, 0)?;
    let (_, c) = cost(|| (d.entry(i, j), d.entry(i, i)));
    within(l, "two entries of u.wrap.diag", &[n], c, 4, 0, 0)?;

    let (m, k) = (30 + r.below(60), 30 + r.below(60));
    let (a, b, p) = (&mat(r, m, k), &mat(r, m, k), &mat(r, k, m));
    let owned = || a.clone();
    macro_rules! matrices {
        ($($name:literal [$rows:expr, $cols:expr] $pre:expr, |$x:ident| $e:expr;)*) => { $( {
            let s = [m, k];
            let $x = $pre;
            let (e, c) = cost(move || $e);
            within(l, concat!("building ", $name), &s, c, 0, 0, 0)?;
            let (rows, cols) = (e.num_rows(), e.num_cols());
            ensure!((rows, cols) == ($rows, $cols), "{}: shape {rows}x{cols}", $name);
            let (i, j) = (r.below(rows), r.below(cols));
            let (_, c) = cost(|| e.entry(i, j));
            within(l, concat!("one entry of ", $name), &s, c, 4, 1, 0)?;
            let ((), c) = cost(|| drop(e));
            within(l, concat!("dropping ", $name), &s, c, 0, 0, 0)?;
            let $x = $pre;
            let e = $e;
            let (_, c) = cost(|| e.eval());
            let all = (rows * cols) as u64;
            within(l, concat!("evaluating ", $name), &s, c, 4 * all, all, all)?;
            l.count("single operations", 1);
        } )* };
    }
    matrices! {
        "&a" [m, k] (), |_x| a.wrap();
        "a" [m, k] owned(), |x| x.wrap();
        "rewrapped &a" [m, k] (), |_x| a.wrap().wrap();
        "&a + &b" [m, k] (), |_x| a + b;
        "&a - &b" [m, k] (), |_x| a - b;
        "a + b" [m, k] (owned(), owned()), |x| x.0.wrap() + x.1;
        "a - &b" [m, k] owned(), |x| x.wrap() - b;
        "&a + b" [m, k] owned(), |x| a + x;
        "a.t" [k, m] (), |_x| a.t();
        "a.h" [k, m] (), |_x| a.h();
        "a.wrap.t" [k, m] owned(), |x| x.wrap().t();
        "a.wrap.h" [k, m] owned(), |x| x.wrap().h();
        "a.mul_elemwise(&b)" [m, k] (), |_x| a.mul_elemwise(b);
        "a.div_elemwise(&b)" [m, k] (), |_x| a.div_elemwise(b);
        "a.mul_elemwise(b)" [m, k] owned(), |x| a.mul_elemwise(x);
        "a.div_elemwise(b)" [m, k] owned(), |x| a.div_elemwise(x);
        "a.wrap.mul_elemwise" [m, k] owned(), |x| x.wrap().mul_elemwise(b);
        "a.wrap.div_elemwise" [m, k] owned(), |x| x.wrap().div_elemwise(b);
        "matrix map" [m, k] (), |_x| a.wrap().map(|x| -x);
        "map of an owned matrix" [m, k] owned(), |x| x.wrap().map(|x| -x);
        "matrix zip" [m, k] (), |_x| a.wrap().zip(b).map(|(x, _)| x);
        "zip of owned matrices" [m, k] (owned(), owned()), |x| x.0.wrap().zip(x.1).map(|(_, y)| y);
        "matrix zeros" [m, k] (), |_x| DMatrix::<Ct>::zeros(m, k);
        "matrix ones" [m, k] (), |_x| DMatrix::<Ct>::ones(m, k);
        "matrix same" [m, k] Ct(4), |x| DMatrix::<Ct>::same(m, k, x);
        "eye" [m, m] (), |_x| DMatrix::<Ct>::eye(m);
        "a function of row and column" [m, k] (), |_x| make_matrix_expr(m, k, |i, j| Ct((i * j) as i64));
    }
    let s = [m, k];
    let (d, c) = cost(|| a.diag());
    within(l, "building a.diag", &s, c, 0, 0, 0)?;
    let i = r.below(m.min(k));
    let (_, c) = cost(|| d.entry(i));
    within(l, "one entry of a.diag", &s, c, 1, 0, 0)?;
    let x = owned();
    let (d, c) = cost(|| x.wrap().diag());
    within(l, "building a.wrap.diag", &s, c, 0, 0, 0)?;
    let (_, c) = cost(|| d.entry(i));
    within(l, "one entry of a.wrap.diag", &s, c, 1, 0, 0)?;
    let (e, c) = cost(|| a * p);
    within(l, "building a * p", &s, c, 0, 0, 0)?;
    let (_, c) = cost(|| e.entry(i, i));
    within(l, "one entry of a * p", &s, c, 4 * k as u64, k as u64, 0)?;
    let (e, c) = cost(|| (a * p).wrap().t());
    within(l, "building (a * p).t", &s, c, 0, 0, 0)?;
    let (_, c) = cost(|| e.entry(i, i));
    within(l, "one entry of (a * p).t", &s, c, 4 * k as u64, k as u64, 0)
}
/// 32 operations, each combining the previous expression with one operand
macro_rules! chain {
    ($e:expr, $w:ident) => {{
        let e = $e;
        chain!(@8 e, $w, { chain!(@8 e, $w, { chain!(@8 e, $w, { chain!(@8 e, $w, { e }) }) }) })
    }};
    (@8 $e:ident, $w:ident, $then:expr) => {{
        let $e = $e + &$w[0];
        let $e = $e - &$w[1];
        let $e = $e.mul_elemwise(&$w[2]);
        let $e = $e + &$w[3];
        let $e = $e.conj();
        let $e = $e - &$w[0];
        let $e = $e.map(|x: Ct| x);
        let $e = $e + &$w[1];
        $then
    }};
}
macro_rules! chain_m {
    ($e:expr, $w:ident) => {{
        let e = $e;
        chain_m!(@8 e, $w, { chain_m!(@8 e, $w, { chain_m!(@8 e, $w, { e }) }) })
    }};
    (@8 $e:ident, $w:ident, $then:expr) => {{
        let $e = $e + &$w[0];
        let $e = $e - &$w[1];
        let $e = $e.mul_elemwise(&$w[2]);
        let $e = $e.h();
        let $e = $e.t();
        let $e = $e - &$w[0];
        let $e = $e.map(|x: Ct| x);
        let $e = $e + &$w[1];
        $then
    }};
}

fn chains(r: &mut Rng, l: &mut Log) -> Res {
    let n = 200 + r.below(3000);
    let k = n as u64;
    let w: Vec<_> = (0..4).map(|_| vec(r, n)).collect();
    let u = vec(r, n);
    let (e, c) = cost(|| chain!(&u + &w[0], w));
    within(l, "building 33 operations over vectors", &[n], c, 0, 0, 0)?;
    let i = r.below(n);
    let (_, c) = cost(|| e.entry(i));
    within(l, "one entry of 33 operations over vectors", &[n], c, 60, 4, 30)?;
    let (_, c) = cost(|| e.eval());
    within(l, "evaluating 33 operations over vectors", &[n], c, 60 * k, 4 * k, k)?;
    let mut t = u.clone();
    let (_, c) = cost(|| t += chain!(&u - &w[1], w));
    within(l, "adding 33 operations in place", &[n], c, 60 * k, 4 * k, k)?;
    let m = 8 + r.below(24);
    let k = (m * m) as u64;
    let w: Vec<_> = (0..4).map(|_| mat(r, m, m)).collect();
    let u = mat(r, m, m);
    let (e, c) = cost(|| chain_m!(&u + &w[0], w));
    within(l, "building 25 operations over matrices", &[m], c, 0, 0, 0)?;
    let (i, j) = (r.below(m), r.below(m));
    let (_, c) = cost(|| e.entry(i, j));
    within(l, "one entry of 25 operations over matrices", &[m], c, 50, 4, 25)?;
    let (_, c) = cost(|| e.eval());
    within(l, "evaluating 25 operations over matrices", &[m], c, 50 * k, 4 * k, k)?;
    let mut t = u.clone();
    let (_, c) = cost(|| t -= chain_m!(&u - &w[1], w));
    within(l, "subtracting 25 operations in place", &[m], c, 50 * k, 4 * k, k)?;
    l.count("long expressions", 2);
    l.sample(|| format!("vector length {n}, matrix size {m}"));
    Ok(())
}

/// 8 or 32 operations of one kind (the types of some grow exponentially)
macro_rules! times8 {
    ($e:ident, $step:expr) => {{
        let $e = $e.wrap();
        times32!(@ $e, $step, $e)
    }};
}

macro_rules! times32 {
    ($e:ident, $step:expr) => {{
        let $e = $e.wrap();
        times32!(@ $e, $step, times32!(@ $e, $step, times32!(@ $e, $step, times32!(@ $e, $step, $e))))
    }};
    (@ $e:ident, $step:expr, $then:expr) => {{
        let $e = $step;
        let $e = $step;
        let $e = $step;
        let $e = $step;
        let $e = $step;
        let $e = $step;
        let $e = $step;
        let $e = $step;
        $then
    }};
}
fn pure_chains(r: &mut Rng, l: &mut Log) -> Res {
    let n = 200 + r.below(3000);
    let k = n as u64;
    let (u, w) = (&vec(r, n), &vec(r, n));
    let mut t = u.clone();
    macro_rules! vectors {
        ($($name:literal $times:ident $e:ident $step:expr, $muls:expr;)*) => { $( {
            let $e = u;
            let (e, c) = cost(|| $times!($e, $step));
            within(l, concat!("building a chain of ", $name), &[n], c, 0, 0, 0)?;
            let i = r.below(n);
            let (_, c) = cost(|| e.entry(i));
            within(l, concat!("one entry of a chain of ", $name), &[n], c, 64, 32, 1)?;
            let (_, c) = cost(|| e.eval());
            within(l, concat!("evaluating a chain of ", $name), &[n], c, 96 * k, $muls * k, k)?;
            let $e = u;
            let e = $times!($e, $step);
            let (_, c) = cost(|| t += e);
            within(l, concat!("adding a chain of ", $name), &[n], c, 96 * k, $muls * k, k)?;
            l.count("long expressions", 1);
        } )* };
    }
    vectors! {
        "sums" times32 e e + w, 0;
        "differences" times32 e e - w, 0;
        "element-wise products" times8 e e.mul_elemwise(w), 32;
        "element-wise quotients" times8 e e.div_elemwise(w), 32;
        "conjugations" times8 e e.conj(), 0;
        "maps" times8 e e.map(|x: Ct| x), 0;
        "wraps" times32 e e.wrap(), 0;
        "zips" times8 e e.zip(w).map(|(x, _): (Ct, Ct)| x), 0;
    }
    let m = 8 + r.below(40);
    let k = (m * m) as u64;
    let (u, w) = (&mat(r, m, m), &mat(r, m, m));
    let mut t = u.clone();
    macro_rules! matrices {
        ($($name:literal $times:ident $e:ident $step:expr, $muls:expr;)*) => { $( {
            let $e = u;
            let (e, c) = cost(|| $times!($e, $step));
            within(l, concat!("building a matrix chain of ", $name), &[m], c, 0, 0, 0)?;
            let (i, j) = (r.below(m), r.below(m));
            let (_, c) = cost(|| e.entry(i, j));
            within(l, concat!("one entry of a matrix chain of ", $name), &[m], c, 64, 32, 1)?;
            let (_, c) = cost(|| e.eval());
            within(l, concat!("evaluating a matrix chain of ", $name), &[m], c, 96 * k, $muls * k, k)?;
            let $e = u;
            let e = $times!($e, $step);
            let (_, c) = cost(|| t -= e);
            within(l, concat!("subtracting a matrix chain of ", $name), &[m], c, 96 * k, $muls * k, k)?;
            l.count("long expressions", 1);
        } )* };
    }
    matrices! {
        "sums" times32 e e + w, 0;
        "differences" times32 e e - w, 0;
        "element-wise products" times8 e e.mul_elemwise(w), 32;
        "element-wise quotients" times8 e e.div_elemwise(w), 32;
        "transpositions" times8 e e.t(), 0;
        "Hermitian transpositions" times8 e e.h(), 0;
        "maps" times8 e e.map(|x: Ct| x), 0;
        "wraps" times32 e e.wrap(), 0;
        "zips" times8 e e.zip(w).map(|(x, _): (Ct, Ct)| x), 0;
            }
    Ok(())
}

fn large_products(r: &mut Rng, l: &mut Log) -> Res {
    let (m, k, n) = (56 + r.below(24), 56 + r.below(24), 56 + r.below(24));
    let [um, uk, un] = [m as u64, k as u64, n as u64];
    let (a, b) = (mat(r, m, k), mat(r, k, n));
    let (_, c) = cost(|| (&a * &b).eval());
    within(l, "large matrix product", &[m, k, n], c, 4 * um * uk * un, um * uk * un, um * uk + uk * un + um * un)?;
    let (n, m) = (1000 + r.below(500), r.below(500));
    let (p, q) = (Polynomial::from_coefficients(list(r, n)), Polynomial::from_coefficients(list(r, m)));
    let (un, um) = (n as u64, m as u64);
    let (_, c) = cost(|| &p * &q);
    within(l, "large polynomial product", &[n, m], c, 2 * un * um, un * um, 2 * (un + um))?;
    let (_, c) = cost(|| &q * &p);
    within(l, "large polynomial product", &[m, n], c, 2 * un * um, un * um, 2 * (un + um))?;
    l.count("large products", 1);
    Ok(())
}

fn statics<const M: usize, const K: usize, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut arr = || Ct(r.range(-9, 9));
    let mut v = || SVector::<Ct, K>::from(std::array::from_fn(|_| arr()));
    let (x, y, z, w) = (v(), v(), v(), v());
    let (um, uk, un) = (M as u64, K as u64, N as u64);
    let s = [M, K, N];
    let (_, c) = cost(|| x * y);
    within(l, "static inner product", &s[1..2], c, 3 * uk, uk, 2 * uk)?;
    let (q, c) = cost(|| z + &w);
    within(l, "static sum", &s[1..2], c, 2 * uk, 0, 2 * uk)?;
    let (q, c) = cost(|| q * Ct(3));
    within(l, "static vector times scalar", &s[1..2], c, 2 * uk, uk, 2 * uk)?;
    let a = SMatrix::<Ct, M, K>::from(std::array::from_fn(|_| std::array::from_fn(|_| arr())));
    let b = SMatrix::<Ct, K, N>::from(std::array::from_fn(|_| std::array::from_fn(|_| arr())));
    let (_, c) = cost(|| &a * &q);
    within(l, "static matrix times vector", &s, c, 4 * um * uk, um * uk, um * uk + uk + um)?;
    let (_, c) = cost(|| &a * &b);
    within(l, "static product of references", &s, c, 4 * um * uk * un, um * uk * un, um * uk + uk * un + um * un)?;
    let (_, c) = cost(|| a * b);
    within(l, "static product", &s, c, 4 * um * uk * un, um * uk * un, um * uk + uk * un + um * un)?;
    l.count("static shapes", 1);
    Ok(())
}

fn complex(r: &mut Rng, l: &mut Log) -> Res {
    let mut z = || Complex::new(Ct(r.range(-9, 9)), Ct(r.range(1, 9)));
    let (a, b) = (z(), z());
    let (_, c) = cost(|| &a * &b);
    within(l, "complex product", &[], c, 7, 4, 0)?;
    let (_, c) = cost(|| &a / &b);
    within(l, "complex quotient", &[], c, 14, 10, 0)?;
    let (_, c) = cost(|| a.clone().sqr_norm());
    within(l, "squared modulus", &[], c, 5, 2, 0)?;
    let (_, c) = cost(|| a + b);
    within(l, "complex sum", &[], c, 2, 0, 0)
}

struct Draws(Rng, u64);
impl rand::RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        self.1 += 1;
        (self.0.u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Memory of the optimiser does not grow with the iterations, comparisons and
/// draws grow linearly.
fn optimiser<const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let (pop, iters) = (if r.chance(1, 3) { 64 + some(r, 60) } else { 4 + some(r, 60) }, 500 + some(r, 4000));
    let mut rng = Draws(Rng::new(r.u64()), 0);
    let mut calls = 0u64;
    let (_, c) = cost(|| {
        magnesia::optimize::differential_evolution(&[(-3.0f64, 4.0); N], pop, 0.5, 0.8, iters, &mut rng, |a, b| {
            calls += 1;
            a.iter().map(|x| x * x).sum::<f64>() < b.iter().map(|x| x * x).sum::<f64>()
        })
    });
    let (p, i, n) = (pop as u64, iters as u64, N as u64);
    let s = format!("optimiser with {pop} members, {iters} iterations, dimension {N}");
    ensure!(calls <= 8 * (i + p), "{s}: {calls} comparisons");
    ensure!(rng.1 <= 8 * n * p + (n + 24) * i + 2000, "{s}: {} values drawn", rng.1);
    // a trial may need scratch space for itself and its few indices, but no copy of the population
    ensure!(c.peak <= (16 * p * n * 8 + 8192) as _, "{s}: {} bytes held at once", c.peak);
    ensure!(c.bytes <= 16 * p * n * 8 + 8192 + i * (256 + 32 * n), "{s}: {} bytes allocated", c.bytes);
    l.count("optimiser runs", 1);
    l.count("optimiser comparisons", calls);
    l.max("values drawn in one run", rng.1);
    l.case(key_of(&("de", N, pop, iters)), true);
    Ok(())
}

/// The stack does not depend on the number of elements.
fn small_stack(r: &mut Rng, l: &mut Log) -> Res {
    let n = 100_000 + r.below(100_000);
    let seed = r.u64();
    let t = std::thread::Builder::new().stack_size(192 << 10).spawn(move || -> Res {
        let x: Vec<i64> = (0..n as i64).map(|i| i ^ (seed as i64 & 0xffff)).collect();
        let (u, v) = ((&x[..]).eval(), (&x[..]).eval());
        let mut s = ((&u + &v).map(|x: i64| x / 2) - &u).eval();
        s += &u;
        s -= v.mul_elemwise(&u);
        ensure!(s.len() == n && s[n - 1] == x[n - 1] - x[n - 1] * x[n - 1], "long vectors: wrong last entry {}", s[n - 1]);
        let one = DVector::<i64>::ones(n).eval();
        ensure!(&one * &one == n as i64, "long vectors: wrong inner product");
        ensure!(u == v && u.clone() == v, "long vectors: equal ones differ");
        drop((u, v, s, one));
        let m = 300;
        let a = make_matrix_expr(m, m, |i, j| (i * m + j) as i64).eval();
        let b = ((&a + &a).t().t() - &a).eval();
        ensure!(a == b, "large matrices: wrong result");
        ensure!(a.diag().eval()[m - 1] == (m * m - 1) as i64, "large matrices: wrong diagonal");
        let w = make_matrix_expr(2, n, |i, j| (i + j % 2) as i64).eval();
        let p = (&w * &w.t().eval()).eval();
        ensure!(p[[0, 0]] == (n / 2) as i64, "long rows: wrong product");
        let f = Polynomial::from_coefficients(vec![1i64; n]);
        ensure!(f.eval(1) == n as i64 && f.eval_ref(&-1) == (n % 2) as i64, "long polynomials: wrong value");
        let g = -(f.clone() + f.clone() - f.clone());
        ensure!(g.eval(1) == -(n as i64), "long polynomials: wrong sum");
        let h = &f * &Polynomial::from_coefficients(vec![1i64, -1]);
        ensure!(h.eval(1) == 0 && h.eval(-1) == 2 * (n % 2) as i64, "long polynomials: wrong product");
        ensure!(f == f.clone(), "long polynomials: equal ones differ");
        Ok(())
    });
    let res = t.expect("spawning a thread").join();
    match res {
        Ok(r) => r?,
        Err(_) => return Err("operations on large operands panicked in a thread with a small stack".into()),
    }
    l.count("small-stack runs", 1);
    l.max("entries in a small-stack run", n as u64);
    l.case(key_of(&("stack", n)), true);
    Ok(())
}

fn main() {
    let run = Run::new("C31", "one operation on operands of given sizes whose element operations, allocations and stack were measured; non-trivial if its definition has more than 16 element operations");
    for (k, n) in [("operations measured", 5000), ("element operations observed", 100_000), ("bytes observed", 100_000), ("long expressions", 50), ("large products", 30), ("single operations", 1000), ("static shapes", 100), ("optimiser runs", 60), ("small-stack runs", 10)] {
        run.require(k, n);
    }
    run.cases("polynomials", run.n(20, 400), polynomials);
    run.cases("vectors", run.n(20, 400), vectors);
    run.cases("matrices", run.n(20, 400), matrices);
    run.cases("building", run.n(3, 60), building);
    run.cases("chains", run.n(5, 100), chains);
    run.cases("pure-chains", run.n(4, 80), pure_chains);
    run.cases("large-products", run.n(1, 20), large_products);
    run.cases("statics", run.n(5, 100), |r, l| {
        statics::<1, 1, 1>(r, l)?;
        statics::<2, 3, 4>(r, l)?;
        statics::<5, 1, 5>(r, l)?;
        statics::<8, 8, 8>(r, l)?;
        statics::<3, 24, 3>(r, l)?;
        statics::<16, 2, 16>(r, l)
    });
    run.cases("complex", run.n(5, 100), complex);
    run.cases("optimiser", run.n(3, 60), |r, l| {
        optimiser::<1>(r, l)?;
        optimiser::<4>(r, l)?;
        optimiser::<17>(r, l)
    });
    run.cases("small-stack", run.n(1, 10), small_stack);
    run.finish()
}
