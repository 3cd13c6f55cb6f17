//! Random expression trees. Every node applies one real library operation to
//! boxed operands and computes, next to it, the fully evaluated model.
use crate::elems::*;
use crate::mm::Mm;
use crate::run::Rng;
use crate::Res;
use magnesia::algebra::Complex;
use magnesia::linalg::*;
use std::cell::{Cell, RefCell};
use std::ops::Div;

// ---------------------------------------------------------------- type erasure

trait ErasedV<T> {
    fn at(&self, i: usize) -> T;
    fn length(&self) -> usize;
    fn empty(&self) -> bool;
    fn run(self: Box<Self>) -> DVector<T>;
}
impl<T, E: VectorExpr<Entry = T>> ErasedV<T> for E {
    fn at(&self, i: usize) -> T {
        self.entry(i)
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn run(self: Box<Self>) -> DVector<T> {
        (*self).eval()
    }
}
/// A boxed vector expression; forwards every call to the expression inside.
pub struct BV<'a, T>(Box<dyn ErasedV<T> + 'a>);
impl<'a, T> BV<'a, T> {
    pub fn new(e: impl VectorExpr<Entry = T> + 'a) -> Self {
        BV(Box::new(e))
    }
}
impl<T> VectorExpr for BV<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        self.0.at(i)
    }
    fn len(&self) -> usize {
        self.0.length()
    }
    fn is_empty(&self) -> bool {
        self.0.empty()
    }
    fn eval(self) -> DVector<T> {
        self.0.run()
    }
}

trait ErasedM<T> {
    fn at(&self, i: usize, j: usize) -> T;
    fn rows(&self) -> usize;
    fn cols(&self) -> usize;
    fn run(self: Box<Self>) -> DMatrix<T>;
}
impl<T, E: MatrixExpr<Entry = T>> ErasedM<T> for E {
    fn at(&self, i: usize, j: usize) -> T {
        self.entry(i, j)
    }
    fn rows(&self) -> usize {
        self.num_rows()
    }
    fn cols(&self) -> usize {
        self.num_cols()
    }
    fn run(self: Box<Self>) -> DMatrix<T> {
        (*self).eval()
    }
}
/// A boxed matrix expression; forwards every call to the expression inside.
pub struct BM<'a, T>(Box<dyn ErasedM<T> + 'a>);
impl<'a, T> BM<'a, T> {
    pub fn new(e: impl MatrixExpr<Entry = T> + 'a) -> Self {
        BM(Box::new(e))
    }
}
impl<T> MatrixExpr for BM<'_, T> {
    type Entry = T;
    fn entry(&self, i: usize, j: usize) -> T {
        self.0.at(i, j)
    }
    fn num_rows(&self) -> usize {
        self.0.rows()
    }
    fn num_cols(&self) -> usize {
        self.0.cols()
    }
    fn eval(self) -> DMatrix<T> {
        self.0.run()
    }
}

// ---------------------------------------------------------------- elements

/// Elements with a division, and its model.
pub trait XEl: LibEl + Div<Output = Self> {
    /// sums may be reassociated (so that matrix products have an oracle)
    const RING: bool;
    fn m_div(&self, o: &Self) -> Self;
    fn safe_divisor(self) -> Self {
        self
    }
}
impl XEl for Tok {
    const RING: bool = false;
    fn m_div(&self, o: &Tok) -> Tok {
        Tok::op("/", *self, *o)
    }
}
macro_rules! opaque {
    ($($t:ty),*) => { $( impl XEl for $t {
        const RING: bool = false;
        fn m_div(&self, o: &Self) -> Self {
            Self::op("/", self, o)
        }
    } )* };
}
opaque!(Bytes<0>, Bytes<1>, Bytes<3>, Bytes<24>, Boxed);
impl XEl for f64 {
    const RING: bool = false;
    fn m_div(&self, o: &f64) -> f64 {
        self / o
    }
}
impl XEl for Zp {
    const RING: bool = true;
    fn m_div(&self, o: &Zp) -> Zp {
        self.m_mul(&o.inv())
    }
    fn safe_divisor(self) -> Zp {
        if self.0 == 0 {
            Zp(1)
        } else {
            self
        }
    }
}
impl XEl for Complex<Zp> {
    const RING: bool = true;
    fn m_div(&self, o: &Self) -> Self {
        let n = o.re.m_mul(&o.re).m_add(&o.im.m_mul(&o.im)).inv();
        let p = self.m_mul(&o.m_conj());
        Complex { re: p.re.m_mul(&n), im: p.im.m_mul(&n) }
    }
    fn safe_divisor(self) -> Self {
        if self == Self::m_zero() {
            Self::m_one()
        } else {
            self
        }
    }
}

// ---------------------------------------------------------------- arena

/// Owns the matrices and vectors that expressions borrow.
pub struct Arena<T> {
    v: RefCell<Vec<*mut DVector<T>>>,
    m: RefCell<Vec<*mut DMatrix<T>>>,
    s: RefCell<Vec<*mut Vec<T>>>,
}
impl<T> Default for Arena<T> {
    fn default() -> Self {
        Arena { v: RefCell::default(), m: RefCell::default(), s: RefCell::default() }
    }
}
impl<T> Arena<T> {
    pub fn v(&self, x: DVector<T>) -> &DVector<T> {
        let p = Box::into_raw(Box::new(x));
        self.v.borrow_mut().push(p);
        // freed only when the arena is dropped, which the borrow outlives
        unsafe { &*p }
    }
    pub fn m(&self, x: DMatrix<T>) -> &DMatrix<T> {
        let p = Box::into_raw(Box::new(x));
        self.m.borrow_mut().push(p);
        unsafe { &*p }
    }
    pub fn s(&self, x: Vec<T>) -> &[T] {
        let p = Box::into_raw(Box::new(x));
        self.s.borrow_mut().push(p);
        unsafe { &*p }
    }
}
impl<T> Drop for Arena<T> {
    fn drop(&mut self) {
        unsafe {
            self.v.get_mut().drain(..).for_each(|p| drop(Box::from_raw(p)));
            self.m.get_mut().drain(..).for_each(|p| drop(Box::from_raw(p)));
            self.s.get_mut().drain(..).for_each(|p| drop(Box::from_raw(p)));
        }
    }
}

// ---------------------------------------------------------------- generator

pub struct V<'a, T> {
    pub e: BV<'a, T>,
    pub m: Vec<T>,
    pub d: String,
}
pub struct M<'a, T> {
    pub e: BM<'a, T>,
    pub m: Mm<T>,
    pub d: String,
}
pub struct Gen<'a, T> {
    pub arena: &'a Arena<T>,
    pub nodes: Cell<usize>,
    /// bit k set: node kind k was generated
    pub vkinds: Cell<u64>,
    pub mkinds: Cell<u64>,
}
pub const V_KINDS: usize = 26;
pub const M_KINDS: usize = 32;

fn f1<T: El>(k: usize) -> (fn(T) -> T, &'static str) {
    match k {
        0 => (|x| x, "id"),
        1 => (|x| x.m_neg(), "neg"),
        2 => (|x| x.m_add(&T::m_one()), "inc"),
        3 => (|x| x.m_mul(&x), "sqr"),
        4 => (|_| T::m_int(7), "seven"),
        _ => (|x| T::m_int(2).m_sub(&x.m_conj()), "two_minus_conj"),
    }
}
fn f2<T: El>(k: usize) -> (fn(&T, &T) -> T, &'static str) {
    match k {
        0 => (|x, _| x.clone(), "fst"),
        1 => (|_, y| y.clone(), "snd"),
        2 => (|x, y| x.m_sub(&y.m_conj()), "x-conj(y)"),
        _ => (|x, y| y.m_mul(x).m_add(x), "yx+x"),
    }
}
fn fi<T: El>(x: &T, k: u32) -> T {
    x.m_add(&T::m_int((k % 100) as i8))
}

/// owned vector from a model
pub fn dv<T: Clone>(m: &[T]) -> DVector<T> {
    m.eval()
}
/// owned matrix of any shape from a model
pub fn dm<T: Clone>(m: &Mm<T>) -> DMatrix<T> {
    make_matrix_expr(m.r, m.c, |i, j| m.at(i, j).clone()).eval()
}

impl<'a, T: XEl> Gen<'a, T> {
    pub fn new(arena: &'a Arena<T>) -> Self {
        Gen { arena, nodes: Cell::new(0), vkinds: Cell::new(0), mkinds: Cell::new(0) }
    }

    pub fn vec(&self, r: &mut Rng, n: usize, depth: usize) -> V<'a, T> {
        self.nodes.set(self.nodes.get() + 1);
        let k = if depth == 0 { r.below(8) } else if r.chance(1, 8) { r.below(8) } else { 8 + r.below(V_KINDS - 8) };
        self.vkinds.set(self.vkinds.get() | 1 << k);
        let d1 = depth.saturating_sub(1);
        match k {
            0..=4 => {
                let m = gen_vec::<T>(r, n);
                let e = match k {
                    0 => BV::new(self.arena.s(m.clone())),
                    1 => {
                        let c = m.clone();
                        BV::new(make_vector_expr(n, move |i| c[i].clone()))
                    }
                    2 => BV::new(dv(&m)),
                    3 => BV::new(self.arena.v(dv(&m))),
                    _ => BV::new(self.arena.s(m.clone()).wrap()),
                };
                let d = format!("{}{m:?}", ["slice", "fn", "owned", "&owned", "slice.wrap"][k]);
                V { e, m, d }
            }
            5 => V { e: BV::new(DVector::<T>::zeros(n)), m: vec![T::m_zero(); n], d: format!("zeros({n})") },
            6 => V { e: BV::new(DVector::<T>::ones(n)), m: vec![T::m_one(); n], d: format!("ones({n})") },
            7 => {
                let x = T::gen(r);
                let d = format!("same({n},{x:?})");
                V { e: BV::new(DVector::same(n, x.clone())), m: vec![x; n], d }
            }
            8 | 9 => {
                let x = self.vec(r, n, d1);
                let (f, name) = f1::<T>(r.below(6));
                let m = x.m.iter().cloned().map(f).collect();
                V { e: BV::new(x.e.wrap().map(f)), m, d: format!("{}.map({name})", x.d) }
            }
            10 => {
                let x = self.vec(r, n, d1);
                let m = x.m.iter().map(T::m_conj).collect();
                V { e: BV::new(x.e.wrap().conj()), m, d: format!("{}.conj()", x.d) }
            }
            11 => {
                let x = self.vec(r, n, d1);
                V { e: BV::new(x.e.wrap().wrap().wrap()), m: x.m, d: format!("{}.wrap().wrap()", x.d) }
            }
            12 => {
                let x = self.vec(r, n, d1);
                V { e: BV::new(x.e.eval()), m: x.m, d: format!("{}.eval()", x.d) }
            }
            13 => {
                let x = self.vec(r, n, d1);
                let m = x.m.iter().map(T::m_conj).collect();
                V { e: BV::new(self.arena.v(x.e.eval()).conj()), m, d: format!("(&{}.eval()).conj()", x.d) }
            }
            // (not for long vectors: the matrices would not fit into memory)
            14 if n <= 300 => {
                // diagonal of a matrix at least n x n, exactly n in one direction
                let extra = r.below(3);
                let (a, b) = if r.chance(1, 2) { (n, n + extra) } else { (n + extra, n) };
                let x = self.mat(r, a, b, d1.min(2));
                let m = (0..n).map(|i| x.m.at(i, i).clone()).collect();
                if r.chance(1, 2) {
                    V { e: BV::new(x.e.wrap().diag()), m, d: format!("{}.diag()", x.d) }
                } else {
                    V { e: BV::new(self.arena.m(x.e.eval()).diag()), m, d: format!("(&{}.eval()).diag()", x.d) }
                }
            }
            15 => {
                // zip with a vector of another type, then map to the element type
                let x = self.vec(r, n, d1);
                let m = x.m.iter().enumerate().map(|(i, x)| fi(x, i as u32)).collect();
                let e = x.e.wrap().zip(make_vector_expr(n, |i| i as u32)).map(|(x, k)| fi(&x, k));
                V { e: BV::new(e), m, d: format!("{}.zip(index).map(x+i)", x.d) }
            }
            16 => {
                // through another entry type
                let x = self.vec(r, n, d1);
                let e = x.e.wrap().map(|x| vec![x]).map(|mut v| v.pop().unwrap());
                V { e: BV::new(e), m: x.m, d: format!("{}.map(vec).map(pop)", x.d) }
            }
            _ => {
                let x = self.vec(r, n, d1);
                let y = self.vec(r, n, d1);
                let zip = |f: fn(&T, &T) -> T| -> Vec<T> { x.m.iter().zip(&y.m).map(|(p, q)| f(p, q)).collect() };
                let wrapped = r.chance(1, 2);
                macro_rules! rhs {
                    ($op:expr) => {
                        if wrapped {
                            BV::new($op(y.e.wrap()))
                        } else {
                            BV::new($op(y.e))
                        }
                    };
                }
                let d = |o: &str| format!("({} {o} {})", x.d, y.d);
                match k {
                    17 => {
                        let (m, d) = (zip(T::m_add), d("+"));
                        let l = x.e.wrap();
                        V { e: if wrapped { BV::new(l + y.e.wrap()) } else { BV::new(l + y.e) }, m, d }
                    }
                    18 => {
                        let (m, d) = (zip(T::m_sub), d("-"));
                        let l = x.e.wrap();
                        V { e: if wrapped { BV::new(l - y.e.wrap()) } else { BV::new(l - y.e) }, m, d }
                    }
                    19 => {
                        let (m, d) = (zip(T::m_add), d("&+"));
                        let l = self.arena.v(x.e.eval());
                        V { e: if wrapped { BV::new(l + y.e.wrap()) } else { BV::new(l + y.e) }, m, d }
                    }
                    20 => {
                        let (m, d) = (zip(T::m_sub), d("&-"));
                        let l = self.arena.v(x.e.eval());
                        V { e: if wrapped { BV::new(l - y.e.wrap()) } else { BV::new(l - y.e) }, m, d }
                    }
                    21 => {
                        let (m, d) = (zip(T::m_mul), d(".*"));
                        let l = x.e.wrap();
                        V { e: if wrapped { BV::new(l.mul_elemwise(y.e.wrap())) } else { BV::new(l.mul_elemwise(y.e)) }, m, d }
                    }
                    22 => {
                        let (m, d) = (zip(T::m_mul), d("&.*"));
                        let l = self.arena.v(x.e.eval());
                        V { e: rhs!(|r| l.mul_elemwise(r)), m, d }
                    }
                    23 | 24 => {
                        let m = x.m.iter().zip(&y.m).map(|(p, q)| p.m_div(&q.clone().safe_divisor())).collect();
                        let d = d(if k == 23 { "./" } else { "&./" });
                        let q = y.e.wrap().map(T::safe_divisor);
                        if k == 23 {
                            V { e: BV::new(x.e.wrap().div_elemwise(q)), m, d }
                        } else {
                            V { e: BV::new(self.arena.v(x.e.eval()).div_elemwise(q)), m, d }
                        }
                    }
                    _ => {
                        let (f, name) = f2::<T>(r.below(4));
                        let (m, d) = (zip(f), d(name));
                        V { e: BV::new(x.e.wrap().zip(y.e).map(move |(x, y)| f(&x, &y))), m, d }
                    }
                }
            }
        }
    }

    pub fn mat(&self, r: &mut Rng, rows: usize, cols: usize, depth: usize) -> M<'a, T> {
        self.nodes.set(self.nodes.get() + 1);
        let mut k = if depth == 0 { r.below(11) } else if r.chance(1, 8) { r.below(11) } else { 11 + r.below(M_KINDS - 11) };
        if (k == 9 || k == 31 || k == 10) && rows != cols {
            k = 2;
        }
        if k == 30 && !T::RING {
            k = 17;
        }
        let d1 = depth.saturating_sub(1);
        let kind = k;
        let out = match k {
            0..=5 => {
                let m = Mm::<T>::gen(r, rows, cols);
                let d = format!("{rows}x{cols}{:?}", m.v);
                let e = match k {
                    0 | 1 => match Self::array(&m) {
                        Some(e) => e,
                        None => BM::new(dm(&m)),
                    },
                    2 => {
                        let c = m.clone();
                        BM::new(make_matrix_expr(rows, cols, move |i, j| c.at(i, j).clone()))
                    }
                    3 => BM::new(dm(&m)),
                    4 => BM::new(self.arena.m(dm(&m))),
                    _ => BM::new(self.arena.m(dm(&m)).wrap()),
                };
                M { e, m, d }
            }
            6 => M { e: BM::new(DMatrix::<T>::zeros(rows, cols)), m: Mm::zeros(rows, cols), d: format!("zeros({rows},{cols})") },
            7 => M { e: BM::new(DMatrix::<T>::ones(rows, cols)), m: Mm::new(rows, cols, |_, _| T::m_one()), d: format!("ones({rows},{cols})") },
            8 => {
                let x = T::gen(r);
                let d = format!("same({rows},{cols},{x:?})");
                M { e: BM::new(DMatrix::same(rows, cols, x.clone())), m: Mm::new(rows, cols, |_, _| x.clone()), d }
            }
            9 | 10 => M { e: BM::new(DMatrix::<T>::eye(rows)), m: Mm::eye(rows), d: format!("eye({rows})") },
            11 | 12 => {
                let x = self.mat(r, rows, cols, d1);
                let (f, name) = f1::<T>(r.below(6));
                let m = x.m.map(|x| f(x.clone()));
                M { e: BM::new(x.e.wrap().map(f)), m, d: format!("{}.map({name})", x.d) }
            }
            13 => {
                let x = self.mat(r, cols, rows, d1);
                M { e: BM::new(x.e.wrap().t()), m: x.m.t(), d: format!("{}.t()", x.d) }
            }
            14 => {
                let x = self.mat(r, cols, rows, d1);
                M { e: BM::new(x.e.wrap().h()), m: x.m.t().map(T::m_conj), d: format!("{}.h()", x.d) }
            }
            15 => {
                let x = self.mat(r, cols, rows, d1);
                M { e: BM::new(self.arena.m(x.e.eval()).t()), m: x.m.t(), d: format!("(&{}.eval()).t()", x.d) }
            }
            16 => {
                let x = self.mat(r, cols, rows, d1);
                M { e: BM::new(self.arena.m(x.e.eval()).h()), m: x.m.t().map(T::m_conj), d: format!("(&{}.eval()).h()", x.d) }
            }
            17 => {
                let x = self.mat(r, rows, cols, d1);
                M { e: BM::new(x.e.wrap().wrap()), m: x.m, d: format!("{}.wrap().wrap()", x.d) }
            }
            18 => {
                let x = self.mat(r, rows, cols, d1);
                M { e: BM::new(x.e.eval()), m: x.m, d: format!("{}.eval()", x.d) }
            }
            19 => {
                let x = self.mat(r, rows, cols, d1);
                let f = |x: &T, i: usize, j: usize| fi(x, (i * 31 + j) as u32);
                let m = Mm::new(rows, cols, |i, j| f(x.m.at(i, j), i, j));
                let e = x.e.wrap().zip(make_matrix_expr(rows, cols, |i, j| (i, j))).map(move |(x, (i, j))| f(&x, i, j));
                M { e: BM::new(e), m, d: format!("{}.zip(indices).map(..)", x.d) }
            }
            20 => {
                let x = self.mat(r, rows, cols, d1);
                let e = x.e.wrap().map(|x| Some(x)).map(|x| x.unwrap());
                M { e: BM::new(e), m: x.m, d: format!("{}.map(Some).map(unwrap)", x.d) }
            }
            30 => {
                // product: lazily read, or evaluated
                let inner = 1 + r.below(5);
                let a = self.mat(r, rows, inner, d1.min(1));
                let b = self.mat(r, inner, cols, d1.min(1));
                let m = a.m.mul(&b.m);
                let (x, y) = (self.arena.m(a.e.eval()), self.arena.m(b.e.eval()));
                M { e: BM::new(x * y), m, d: format!("({} * {})", a.d, b.d) }
            }
            31 => {
                let x = self.vec(r, rows, d1);
                let m = Mm::new(rows, rows, |i, j| if i == j { x.m[i].clone() } else { T::m_zero() });
                if r.chance(1, 2) {
                    M { e: BM::new(x.e.wrap().diag()), m, d: format!("{}.diag()", x.d) }
                } else {
                    M { e: BM::new(self.arena.v(x.e.eval()).diag()), m, d: format!("(&{}.eval()).diag()", x.d) }
                }
            }
            _ => {
                let x = self.mat(r, rows, cols, d1);
                let y = self.mat(r, rows, cols, d1);
                let wrapped = r.chance(1, 2);
                let d = |o: &str| format!("({} {o} {})", x.d, y.d);
                match k {
                    21 => {
                        let (m, d) = (x.m.zip(&y.m, T::m_add), d("+"));
                        let l = x.e.wrap();
                        M { e: if wrapped { BM::new(l + y.e.wrap()) } else { BM::new(l + y.e) }, m, d }
                    }
                    22 => {
                        let (m, d) = (x.m.zip(&y.m, T::m_sub), d("-"));
                        let l = x.e.wrap();
                        M { e: if wrapped { BM::new(l - y.e.wrap()) } else { BM::new(l - y.e) }, m, d }
                    }
                    23 => {
                        let (m, d) = (x.m.zip(&y.m, T::m_add), d("&+"));
                        let l = self.arena.m(x.e.eval());
                        M { e: if wrapped { BM::new(l + y.e.wrap()) } else { BM::new(l + y.e) }, m, d }
                    }
                    24 => {
                        let (m, d) = (x.m.zip(&y.m, T::m_sub), d("&-"));
                        let l = self.arena.m(x.e.eval());
                        M { e: if wrapped { BM::new(l - y.e.wrap()) } else { BM::new(l - y.e) }, m, d }
                    }
                    25 => {
                        let (m, d) = (x.m.zip(&y.m, T::m_mul), d(".*"));
                        let l = x.e.wrap();
                        M { e: if wrapped { BM::new(l.mul_elemwise(y.e.wrap())) } else { BM::new(l.mul_elemwise(y.e)) }, m, d }
                    }
                    26 => {
                        let (m, d) = (x.m.zip(&y.m, T::m_mul), d("&.*"));
                        let l = self.arena.m(x.e.eval());
                        M { e: if wrapped { BM::new(l.mul_elemwise(y.e.wrap())) } else { BM::new(l.mul_elemwise(y.e)) }, m, d }
                    }
                    27 | 28 => {
                        let m = x.m.zip(&y.m, |p, q| p.m_div(&q.clone().safe_divisor()));
                        let d = d(if k == 27 { "./" } else { "&./" });
                        let q = y.e.wrap().map(T::safe_divisor);
                        if k == 27 {
                            M { e: BM::new(x.e.wrap().div_elemwise(q)), m, d }
                        } else {
                            M { e: BM::new(self.arena.m(x.e.eval()).div_elemwise(q)), m, d }
                        }
                    }
                    _ => {
                        let (f, name) = f2::<T>(r.below(4));
                        let (m, d) = (x.m.zip(&y.m, f), d(name));
                        M { e: BM::new(x.e.wrap().zip(y.e).map(move |(x, y)| f(&x, &y))), m, d }
                    }
                }
            }
        };
        self.mkinds.set(self.mkinds.get() | 1 << kind);
        out
    }

    /// nested array leaf, for the shapes compiled in
    fn array(m: &Mm<T>) -> Option<BM<'a, T>> {
        fn a<'a, T: XEl, const R: usize, const C: usize>(m: &Mm<T>) -> BM<'a, T> {
            let arr: [[T; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| m.at(i, j).clone()));
            BM::new(arr)
        }
        macro_rules! shapes {
            ($($r:literal $c:literal),*) => {
                match (m.r, m.c) {
                    $( ($r, $c) => Some(a::<T, $r, $c>(m)), )*
                    _ => None,
                }
            };
        }
        shapes!(0 0, 0 1, 0 3, 1 0, 3 0, 1 1, 1 2, 2 1, 2 2, 1 3, 3 1, 2 3, 3 2, 3 3, 4 2, 2 5, 5 3, 4 4, 1 7, 7 1)
    }
}

// ---------------------------------------------------------------- checks

fn short(s: &str) -> &str {
    let mut k = s.len().min(1500);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    &s[..k]
}

/// Reads entries lazily (random order, twice) and evaluates; all must equal the model.
pub fn check_vec<T: XEl>(r: &mut Rng, x: V<T>) -> Res {
    let (n, d) = (x.m.len(), short(&x.d).to_string());
    if x.e.len() != n || x.e.is_empty() != (n == 0) {
        return Err(format!("{d}: len {} is_empty {}, want {n}", x.e.len(), x.e.is_empty()));
    }
    for k in 0..(2 * n).min(24) {
        let i = if n <= 12 { if k < n { n - 1 - k } else { k - n } } else { r.below(n) };
        let g = x.e.entry(i);
        if !g.same(&x.m[i]) {
            return Err(format!("{d} over {}: entry({i}) = {g:?}, want {:?}", T::NAME, x.m[i]));
        }
    }
    let wrap_again = r.chance(1, 2);
    let v = if wrap_again { x.e.wrap().wrap().eval() } else { x.e.eval() };
    is_vec(&v, &x.m, &d)?;
    // re-evaluating changes nothing
    is_vec(&(&v).eval(), &x.m, &d)?;
    is_vec(&(&v).wrap().eval(), &x.m, &d)?;
    is_vec(&v.eval().wrap().eval(), &x.m, &d)
}
pub fn is_vec<T: El>(v: &DVector<T>, m: &[T], d: &str) -> Res {
    if v.len() != m.len() {
        return Err(format!("{d} over {}: evaluated length {}, want {}", T::NAME, v.len(), m.len()));
    }
    for (i, w) in m.iter().enumerate() {
        if !v[i].same(w) {
            return Err(format!("{d} over {}: evaluated entry {i} = {:?}, want {w:?}", T::NAME, v[i]));
        }
    }
    Ok(())
}
pub fn check_mat<T: XEl>(r: &mut Rng, x: M<T>) -> Res {
    let d = short(&x.d).to_string();
    let (a, b) = (x.m.r, x.m.c);
    if x.e.num_rows() != a || x.e.num_cols() != b {
        return Err(format!("{d}: shape {}x{}, want {a}x{b}", x.e.num_rows(), x.e.num_cols()));
    }
    let n = a * b;
    for k in 0..(2 * n).min(24) {
        let p = if n <= 12 { if k < n { n - 1 - k } else { k - n } } else { r.below(n) };
        let g = x.e.entry(p / b, p % b);
        let w = x.m.at(p / b, p % b);
        if !g.same(w) {
            return Err(format!("{d} over {}: entry({},{}) = {g:?}, want {w:?}", T::NAME, p / b, p % b));
        }
    }
    let wrap_again = r.chance(1, 2);
    let v = if wrap_again { x.e.wrap().wrap().eval() } else { x.e.eval() };
    is_mat(&v, &x.m, &d)?;
    is_mat(&(&v).eval(), &x.m, &d)?;
    is_mat(&(&v).wrap().eval(), &x.m, &d)?;
    is_mat(&v.eval().wrap().eval(), &x.m, &d)
}
pub fn is_mat<T: El>(v: &DMatrix<T>, m: &Mm<T>, d: &str) -> Res {
    if v.num_rows() != m.r || v.num_cols() != m.c {
        return Err(format!("{d} over {}: evaluated shape {}x{}, want {}x{}", T::NAME, v.num_rows(), v.num_cols(), m.r, m.c));
    }
    for i in 0..m.r {
        for j in 0..m.c {
            if !v[[i, j]].same(m.at(i, j)) {
                return Err(format!("{d} over {}: evaluated entry ({i},{j}) = {:?}, want {:?}", T::NAME, v[[i, j]], m.at(i, j)));
            }
        }
    }
    Ok(())
}
