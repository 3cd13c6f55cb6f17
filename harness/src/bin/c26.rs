//! C26: operations are functions of their operands, whatever ran before or runs elsewhere.
use harness::elems::*;
use harness::ensure;
use harness::expr::{dm, dv};
use harness::mm::Mm;
use harness::run::{caught, key_of, mix, Log, Res, Rng, Run};
use magnesia::algebra::*;
use magnesia::functions::*;
use magnesia::linalg::*;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Barrier;

/// Places blocks at varying distances from multiples of 4096, so that equal
/// values rarely lie at equally aligned addresses.
struct Placing;
#[cfg(not(miri))]
mod placing {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static COUNT: AtomicUsize = AtomicUsize::new(1);
    const HEAD: usize = 16;
    fn outer(l: Layout) -> Option<Layout> {
        Layout::from_size_align(l.size().checked_add(HEAD + 32 * l.align().max(8))?, l.align().max(8)).ok()
    }
    unsafe impl GlobalAlloc for super::Placing {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let Some(o) = outer(l) else { return std::ptr::null_mut() };
            let base = System.alloc(o);
            if base.is_null() {
                return base;
            }
            let k = (COUNT.fetch_add(1, Relaxed).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 59) % 31;
            let step = l.align().max(8);
            let off = HEAD.next_multiple_of(step) % (31 * step) + k * step;
            let off = if off + l.size() <= o.size() { off } else { HEAD.next_multiple_of(step) };
            let p = base.add(off);
            (p.sub(8) as *mut u64).write(off as u64);
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let off = (p.sub(8) as *mut u64).read() as usize;
            System.dealloc(p.sub(off), outer(l).unwrap());
        }
    }
    #[global_allocator]
    static A: super::Placing = super::Placing;
}

// ---------------------------------------------------------------- digests

fn fold(h: u64, x: u64) -> u64 {
    mix(h.rotate_left(7) ^ x)
}
trait Digest {
    fn dig(&self) -> u64;
}
impl Digest for u64 {
    fn dig(&self) -> u64 {
        *self
    }
}
impl Digest for bool {
    fn dig(&self) -> u64 {
        *self as u64
    }
}
impl Digest for Zp {
    fn dig(&self) -> u64 {
        self.0
    }
}
impl Digest for f64 {
    fn dig(&self) -> u64 {
        if self.is_nan() { 1 } else { self.to_bits() }
    }
}
impl Digest for f32 {
    fn dig(&self) -> u64 {
        if self.is_nan() { 1 } else { self.to_bits() as u64 }
    }
}
impl<T: Digest> Digest for Complex<T> {
    fn dig(&self) -> u64 {
        fold(self.re.dig(), self.im.dig())
    }
}
impl<T: Digest> Digest for [T] {
    fn dig(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, x| fold(h, x.dig()))
    }
}
impl<T: Digest, const N: usize> Digest for SVector<T, N> {
    fn dig(&self) -> u64 {
        self.0.dig()
    }
}
impl<T: Digest + Clone> Digest for DVector<T> {
    fn dig(&self) -> u64 {
        (0..self.len()).fold(self.len() as u64, |h, i| fold(h, self[i].dig()))
    }
}
impl<T: Digest + Clone> Digest for DMatrix<T> {
    fn dig(&self) -> u64 {
        let mut h = fold(self.num_rows() as u64, self.num_cols() as u64);
        for i in 0..self.num_rows() {
            for j in 0..self.num_cols() {
                h = fold(h, self[[i, j]].dig());
            }
        }
        h
    }
}
impl Digest for Polynomial<Zp> {
    fn dig(&self) -> u64 {
        [3, 1 << 40, 0].iter().fold(9, |h, &x| fold(h, self.eval(Zp(x)).dig()))
    }
}
type S3 = SMatrix<Zp, 3, 3>;
impl Digest for S3 {
    fn dig(&self) -> u64 {
        (0..3).fold(5, |h, j| {
            let e = SVector::<Zp, 3>(std::array::from_fn(|k| Zp((k == j) as u64)));
            fold(h, (self * &e).dig())
        })
    }
}

// ---------------------------------------------------------------- operands

const K: usize = 6;
#[derive(Clone)]
struct Pool {
    p: Vec<Polynomial<Zp>>,
    z: Vec<Complex<Zp>>,
    c: Vec<Complex<f64>>,
    f: Vec<f64>,
    s: Vec<SVector<Zp, 4>>,
    m: Vec<S3>,
    v: Vec<DVector<Zp>>,
    w: Vec<DVector<Complex<f64>>>,
    d: Vec<DMatrix<Zp>>,
    e: Vec<DMatrix<Complex<Zp>>>,
    x: Vec<DVector<f64>>,
    y: Vec<DMatrix<f64>>,
    g: Vec<DVector<f32>>,
}
impl Pool {
    fn gen(r: &mut Rng) -> Pool {
        let mut n = 1 + r.below(7);
        let a = 1 + r.below(5);
        if !cfg!(miri) && r.chance(1, 8) {
            n = r.pick(&[33, 65, 150, 300]);
        }
        let cf = |r: &mut Rng| Complex::new(4.0 * r.unit() - 2.0, 4.0 * r.unit() - 2.0);
        Pool {
            p: (0..K).map(|_| { let k = r.size(20); Polynomial::from_coefficients(gen_vec(r, k)) }).collect(),
            z: (0..K).map(|_| Complex::gen(r)).collect(),
            c: (0..K).map(|_| cf(r)).collect(),
            f: (0..K).map(|_| 6.0 * r.unit() - 3.0).collect(),
            s: (0..K).map(|_| SVector(std::array::from_fn(|_| Zp::gen(r)))).collect(),
            m: (0..K).map(|_| S3::from(std::array::from_fn(|_| std::array::from_fn(|_| Zp::gen(r))))).collect(),
            v: (0..K).map(|_| dv(&gen_vec::<Zp>(r, n))).collect(),
            w: (0..K).map(|_| dv(&(0..n).map(|_| cf(r)).collect::<Vec<_>>())).collect(),
            d: (0..K).map(|_| dm(&Mm::<Zp>::gen(r, a, a))).collect(),
            e: (0..K).map(|_| dm(&Mm::<Complex<Zp>>::gen(r, a, a))).collect(),
            x: (0..K).map(|_| { let v: Vec<f64> = (0..n).map(|_| r.unit() * 1e3 - 300.0).collect(); make_vector_expr(n, |i| v[i]).eval() }).collect(),
            y: (0..K).map(|_| { let v: Vec<f64> = (0..a * n).map(|_| r.unit() - 0.3).collect(); make_matrix_expr(a, n, |i, j| v[i * n + j]).eval() }).collect(),
            g: (0..K).map(|_| { let v: Vec<f32> = (0..n).map(|_| r.unit() as f32).collect(); make_vector_expr(n, |i| v[i]).eval() }).collect(),
        }
    }
    fn dig(&self) -> u64 {
        let mut h = 0;
        for i in 0..K {
            for x in [self.p[i].dig(), self.z[i].dig(), self.c[i].dig(), self.f[i].dig(), self.s[i].dig(), self.m[i].dig(), self.v[i].dig(), self.w[i].dig(), self.d[i].dig(), self.e[i].dig(), self.x[i].dig(), self.y[i].dig(), self.g[i].dig()] {
                h = fold(h, x);
            }
        }
        h
    }
}

// ---------------------------------------------------------------- operations

type Op = fn(&Pool, usize, usize) -> u64;
#[rustfmt::skip]
const OPS: &[(&str, Op)] = &[
    ("poly +", |p, i, j| (p.p[i].clone() + p.p[j].clone()).dig()),
    ("poly -", |p, i, j| (p.p[i].clone() - p.p[j].clone()).dig()),
    ("poly *", |p, i, j| (&p.p[i] * &p.p[j]).dig()),
    ("poly * val", |p, i, j| (p.p[i].clone() * p.p[j].clone()).dig()),
    ("poly neg", |p, i, _| (-p.p[i].clone()).dig()),
    ("poly ==", |p, i, j| (p.p[i] == p.p[j]).dig()),
    ("poly eval", |p, i, j| p.p[i].eval_ref(&p.z[j].re).dig()),
    ("poly +=", |p, i, j| { let mut t = p.p[i].clone(); t += &p.p[j]; t -= p.p[i].clone(); t.dig() }),
    ("poly zero one", |_, _, _| (Polynomial::<Zp>::zero() - Polynomial::one()).dig()),
    ("complex +", |p, i, j| (p.z[i] + p.z[j]).dig()),
    ("complex -", |p, i, j| (p.z[i] - p.z[j]).dig()),
    ("complex *", |p, i, j| (p.z[i] * p.z[j]).dig()),
    ("complex & *", |p, i, j| (&p.z[i] * &p.z[j]).dig()),
    ("complex / f64", |p, i, j| (p.c[i] / p.c[j]).dig()),
    ("complex & / f64", |p, i, j| (&p.c[i] / &p.c[j]).dig()),
    ("complex / real", |p, i, j| (p.c[i] / p.f[j]).dig()),
    ("complex *=", |p, i, j| { let mut t = p.z[i]; t *= p.z[j]; t += &p.z[j]; t.dig() }),
    ("conj sqr_norm", |p, i, j| fold(p.z[i].conj().dig(), p.z[j].sqr_norm().dig())),
    ("complex exp", |p, i, _| p.c[i].exp().dig()),
    ("complex ln", |p, i, _| p.c[i].ln().dig()),
    ("complex sin", |p, i, _| p.c[i].sin().dig()),
    ("complex cos", |p, i, _| p.c[i].cos().dig()),
    ("complex sinh", |p, i, _| p.c[i].sinh().dig()),
    ("complex cosh", |p, i, _| p.c[i].cosh().dig()),
    ("complex tan", |p, i, _| p.c[i].tan().dig()),
    ("complex sqrt", |p, i, _| p.c[i].sqrt().dig()),
    ("complex abs arg", |p, i, _| fold(p.c[i].abs().dig(), p.c[i].arg().dig())),
    ("real functions", |p, i, j| [Sin::sin(p.f[i]), Cos::cos(p.f[i]), Tan::tan(p.f[i]), Exp::exp(p.f[i]), Ln::ln(p.f[i]), Sqrt::sqrt(&p.f[i]),
        Sinh::sinh(p.f[i]), Cosh::cosh(p.f[i]), Asin::asin(p.f[i] / 3.0), Atan2::atan2(p.f[i], p.f[j]), Abs::abs(p.f[i])].dig()),
    ("real functions f32", |p, i, j| { let (x, y) = (p.f[i] as f32, p.f[j] as f32); [Sin::sin(x), Cos::cos(x), Tan::tan(x), Exp::exp(x), Ln::ln(x), Sqrt::sqrt(&x),
        Sinh::sinh(x), Cosh::cosh(x), Asin::asin(x / 3.0), Atan2::atan2(x, y), Abs::abs(x)].dig() }),
    ("svector + -", |p, i, j| (p.s[i].clone() + &p.s[j] - p.s[i].clone()).dig()),
    ("svector dot", |p, i, j| (p.s[i].clone() * &p.s[j]).dig()),
    ("svector scale", |p, i, j| (p.s[i].clone() * p.z[j].re).dig()),
    ("svector +=", |p, i, j| { let mut t = p.s[i].clone(); t += &p.s[j]; t *= p.z[i].im; t.dig() }),
    ("smatrix + -", |p, i, j| (p.m[i].clone() + &p.m[j] - p.m[j].clone()).dig()),
    ("smatrix *", |p, i, j| (&p.m[i] * &p.m[j]).dig()),
    ("smatrix *=", |p, i, j| { let mut t = p.m[i].clone(); t *= &p.m[j]; t.dig() }),
    ("smatrix vector", |p, i, j| { let v = SVector::<Zp, 3>(std::array::from_fn(|k| p.s[j][k])); (&p.m[i] * &v).dig() }),
    ("smatrix neg conj one", |p, i, _| (-p.m[i].clone() + S3::one()).conj().dig()),
    ("dvector + -", |p, i, j| fold((&p.v[i] + &p.v[j]).eval().dig(), (&p.v[i] - &p.v[j]).eval().dig())),
    ("dvector *", |p, i, j| (&p.v[i] * &p.v[j]).dig()),
    ("dvector inner complex", |p, i, j| (&p.w[i] * &p.w[j]).dig()),
    ("dvector elemwise", |p, i, j| fold(p.w[i].mul_elemwise(&p.w[j]).eval().dig(), p.w[i].div_elemwise(&p.w[j]).eval().dig())),
    ("dvector conj", |p, i, _| p.w[i].conj().eval().dig()),
    ("dvector diag", |p, i, _| p.v[i].diag().eval().dig()),
    ("dvector +=", |p, i, j| { let mut t = p.v[i].clone(); t += &p.v[j]; t -= p.v[i].wrap_ref(); t.dig() }),
    ("dvector map zip", |p, i, j| (&p.v[i]).wrap().zip(&p.v[j]).map(|(x, y)| x * y + x).eval().dig()),
    ("dvector zeros ones same", |p, i, j| (DVector::<Zp>::zeros(3 + i) + DVector::<Zp>::ones(3 + i) - DVector::<Zp>::same(3 + i, p.z[j].re)).eval().dig()),
    ("dmatrix + -", |p, i, j| fold((&p.d[i] + &p.d[j]).eval().dig(), (&p.d[i] - &p.d[j]).eval().dig())),
    ("dmatrix *", |p, i, j| (&p.d[i] * &p.d[j]).eval().dig()),
    ("dmatrix * complex", |p, i, j| (&p.e[i] * &p.e[j]).eval().dig()),
    ("dmatrix t h diag", |p, i, j| [p.e[i].t().eval().dig(), p.e[i].h().eval().dig(), p.d[j].diag().eval().dig()].dig()),
    ("dmatrix elemwise", |p, i, j| p.d[i].mul_elemwise(&p.d[j]).eval().dig()),
    ("dmatrix +=", |p, i, j| { let mut t = p.d[i].clone(); t += &p.d[j]; t -= p.d[j].t(); t.dig() }),
    ("dmatrix eye", |p, i, j| (DMatrix::<Zp>::eye(2 + i) + DMatrix::<Zp>::same(2 + i, 2 + i, p.z[j].im)).eval().dig()),
    ("dmatrix == clone", |p, i, j| fold((p.d[i] == p.d[j]).dig(), (p.d[i].clone() == p.d[i]).dig())),
    ("dvector f64 inner", |p, i, j| (&p.x[i] * &p.x[j]).dig()),
    ("dvector f32 inner", |p, i, j| (&p.g[i] * &p.g[j]).dig()),
    ("dvector f64 ops", |p, i, j| fold((&p.x[i] + &p.x[j]).eval().dig(), p.x[i].div_elemwise(&p.x[j]).eval().dig())),
    ("dmatrix f64 *", |p, i, j| (&p.y[i] * &p.y[j].t().eval()).eval().dig()),
    ("ackley", |p, i, j| magnesia::optimize::test_functions::ackley(p.f[i] as f32, p.f[j] as f32).dig()),
    ("optimise", |p, i, j| {
        use rand::SeedableRng;
        let mut g = rand::rngs::StdRng::seed_from_u64(p.f[i].to_bits());
        let c = p.f[j];
        magnesia::optimize::differential_evolution(&[(-3.0f64, 3.0); 2], 5 + j, 0.7, 0.6, 30, &mut g, |a, b| (a[0] - c).abs() + a[1].abs() < (b[0] - c).abs() + b[1].abs()).dig()
    }),
];
trait WrapRef<T> {
    fn wrap_ref(&self) -> &Self {
        self
    }
}
impl<T> WrapRef<T> for DVector<T> {}

/// lets the workload share values even if the type were not shareable; whether
/// it is, is a question of its own
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

// ---------------------------------------------------------------- stages

fn table(p: &Pool) -> Vec<u64> {
    let mut t = vec![];
    for (_, op) in OPS {
        for i in 0..K {
            for j in 0..K {
                t.push(op(p, i, j));
            }
        }
    }
    t
}

/// in a thread of its own, so that nothing this thread has done before (such as
/// an operation cut short) is part of the reference
fn fresh<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let f = Share(f);
    std::thread::scope(|s| s.spawn(move || Share(f.take()())).join()).map(|x| x.0).map_err(|_| "an operation panicked in a fresh thread".to_string())
}

fn history(r: &mut Rng, l: &mut Log) -> Res {
    let p = Pool::gen(r);
    let before = p.dig();
    let want = fresh(|| table(&p))?;
    // other operands in between, any order, each many times
    let q = Pool::gen(r);
    let mut copy = p.clone();
    for step in 0..3000 {
        // equal operands at other addresses
        if step % 100 == 0 {
            copy = p.clone();
            l.count("relocations", 1);
        }
        let k = r.below(OPS.len());
        let (i, j) = (r.below(K), r.below(K));
        if r.chance(1, 3) {
            (OPS[k].1)(&q, i, j);
        }
        let reps = if r.chance(1, 10) { 3 } else { 1 };
        for _ in 0..reps {
            let got = (OPS[k].1)(if r.chance(1, 2) { &copy } else { &p }, i, j);
            ensure!(got == want[(k * K + i) * K + j], "{}({i}, {j}): another result at step {step} than in the first run", OPS[k].0);
        }
        l.count("repeated operations", reps);
    }
    ensure!(p.dig() == before, "an operand was changed by reading operations");
    // last: the whole table again
    ensure!(table(&p) == want, "the operations give other results in a second pass");
    l.case(before, true);
    l.sample(|| format!("{} operations on {K} operands each, 3000 steps in random order", OPS.len()));
    Ok(())
}

fn threads(r: &mut Rng, l: &mut Log) -> Res {
    let n = 4;
    let steps = if cfg!(miri) { 40 } else { 2000 };
    let p = Share(Pool::gen(r));
    let before = p.get().dig();
    // half of the runs start concurrently on untouched operands
    let cold = r.chance(1, 2);
    let want = if cold { None } else { Some(fresh(|| table(p.get()))?) };
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let start = Barrier::new(n);
    let same_order = r.chance(1, 2);
    let logs: Vec<Result<Vec<(usize, u64)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let (p, start) = (&p, &start);
                let seed = if same_order { seeds[0] } else { seed };
                s.spawn(move || {
                    let mut r = Rng::new(seed);
                    let mut log = vec![];
                    start.wait();
                    for _ in 0..steps {
                        let k = r.below(OPS.len());
                        let (i, j) = (r.below(K), r.below(K));
                        log.push(((k * K + i) * K + j, (OPS[k].1)(p.get(), i, j)));
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "an operation panicked in a thread".to_string())).collect()
    });
    let want = match want {
        Some(w) => w,
        None => fresh(|| table(p.get()))?,
    };
    for (t, log) in logs.into_iter().enumerate() {
        for (at, got) in log? {
            let (k, i, j) = (at / K / K, at / K % K, at % K);
            ensure!(got == want[at], "{}({i}, {j}): thread {t} of {n} got another result than a sequential run", OPS[k].0);
        }
        l.count("concurrent operations", steps as u64);
    }
    ensure!(p.get().dig() == before, "an operand was changed by reading operations");
    l.case(before, true);
    l.count(if cold { "cold starts" } else { "warm starts" }, 1);
    Ok(())
}

/// expressions read by several threads at once
fn expressions(r: &mut Rng, l: &mut Log) -> Res {
    let n = 1 + r.below(12);
    let (a, b) = (dv(&gen_vec::<Complex<Zp>>(r, n)), dv(&gen_vec::<Complex<Zp>>(r, n)));
    let (m, o) = (dm(&Mm::<Complex<Zp>>::gen(r, n, n)), dm(&Mm::<Complex<Zp>>::gen(r, n, n)));
    let v = Share((&a + &b).map(|x| x * x).zip(b.conj()).map(|(x, y)| x - y) - m.diag());
    let w = Share((&m * &o).wrap().h() + m.t().mul_elemwise(&o).conj_all() - (&a).wrap().diag());
    let first: Vec<u64> = (0..n).map(|i| v.get().entry(i).dig()).chain((0..n * n).map(|k| w.get().entry(k / n, k % n).dig())).collect();
    let seeds: Vec<u64> = (0..4).map(|_| r.u64()).collect();
    let start = Barrier::new(4);
    let bad: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let (v, w, first, start) = (&v, &w, &first, &start);
                s.spawn(move || {
                    let mut r = Rng::new(seed);
                    start.wait();
                    for _ in 0..if cfg!(miri) { 10 } else { 200 } {
                        let k = r.below(n + n * n);
                        let got = if k < n { v.get().entry(k).dig() } else { w.get().entry((k - n) / n, (k - n) % n).dig() };
                        if got != first[k] {
                            return Some(k);
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for x in bad {
        match x {
            Ok(None) => {}
            Ok(Some(k)) => return Err(format!("entry {k} of a shared expression over length {n} read by a thread differs from the first reading")),
            Err(_) => return Err("reading a shared expression panicked".into()),
        }
    }
    let again: Vec<u64> = (0..n).map(|i| v.get().entry(i).dig()).chain((0..n * n).map(|k| w.get().entry(k / n, k % n).dig())).collect();
    ensure!(again == first, "a shared expression over length {n} reads differently afterwards");
    l.count("shared expressions", 2);
    l.case(r.u64(), true);
    Ok(())
}
trait ConjAll: MatrixExpr + Sized {
    fn conj_all(self) -> MatrixExprWrapper<impl MatrixExpr<Entry = Self::Entry>>
    where
        Self::Entry: Conj,
    {
        self.wrap().map(|x| x.conj())
    }
}
impl<E: MatrixExpr> ConjAll for E {}

// whether a type is Send and Sync, decided without failing to compile
struct Is<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
#[allow(dead_code)]
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: ?Sized> NotSend for &Is<T> {}
impl<T: ?Sized> NotSync for &Is<T> {}
impl<T: Send + ?Sized> YesSend for Is<T> {}
impl<T: Sync + ?Sized> YesSync for Is<T> {}
fn is_of<T>(_: &T) -> Is<T> {
    Is(PhantomData)
}

fn shareable(r: &mut Rng, l: &mut Log) -> Res {
    let a = dv(&gen_vec::<Zp>(r, 3));
    let m = dm(&Mm::<Zp>::gen(r, 3, 3));
    macro_rules! must {
        ($($n:literal $e:expr;)*) => { $( {
            let x = $e;
            let is = is_of(&x);
            ensure!((&is).send(), "{} cannot be sent to another thread", $n);
            ensure!((&is).sync(), "{} cannot be shared between threads", $n);
            l.count("shareable types", 1);
            l.case(harness::run::hash_str($n), true);
        } )* };
    }
    must! {
        "Polynomial" Polynomial::<Zp>::one();
        "Polynomial<Complex>" Polynomial::<Complex<f64>>::one();
        "Complex" Complex::new(1.0f64, 2.0);
        "SVector" SVector::<Zp, 3>::zero();
        "SMatrix" S3::one();
        "DVector" a.clone();
        "DMatrix" m.clone();
        "&DVector" &a;
        "&DMatrix" &m;
        "sum of vectors" &a + &a;
        "difference of vectors" &a - &a;
        "wrapped vector" a.clone().wrap();
        "mapped vector" a.clone().wrap().map(|x| x);
        "zipped vectors" a.clone().wrap().zip(&a);
        "conjugated vector" a.conj();
        "element-wise product" a.mul_elemwise(&a);
        "element-wise quotient" a.div_elemwise(&a);
        "diagonal matrix" a.diag();
        "vector of zeros" DVector::<Zp>::zeros(3);
        "vector of ones" DVector::<Zp>::ones(3);
        "constant vector" DVector::<Zp>::same(3, Zp(2));
        "vector from function" make_vector_expr(3, |i| i);
        "sum of matrices" &m + &m;
        "difference of matrices" &m - &m;
        "product of matrices" &m * &m;
        "transposed matrix" m.t();
        "Hermitian matrix" m.h();
        "matrix diagonal" m.diag();
        "wrapped matrix" m.clone().wrap().map(|x| x).zip(&m);
        "identity matrix" DMatrix::<Zp>::eye(3);
        "matrix of zeros" DMatrix::<Zp>::zeros(3, 2);
        "matrix of ones" DMatrix::<Zp>::ones(3, 2);
        "constant matrix" DMatrix::<Zp>::same(3, 2, Zp(4));
        "matrix from function" make_matrix_expr(2, 2, |i, j| i + j);
        "nested arrays" [[1i64, 2], [3, 4]].wrap();
    }
    Ok(())
}

// ---------------------------------------------------------------- re-entrancy

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ACTION: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
const INTERRUPT: &str = "interrupted by the workload";
/// called by every element operation and closure: runs the pending action when
/// its turn has come
fn here() {
    let n = COUNT.get();
    COUNT.set(n + 1);
    if n == AT.get() {
        let a = ACTION.with(|a| a.borrow_mut().take());
        if let Some(a) = a {
            a();
        }
    }
}
fn pending(at: u64, a: Option<Box<dyn FnOnce()>>) {
    COUNT.set(0);
    AT.set(at);
    ACTION.with(|c| *c.borrow_mut() = a);
}

/// Zp whose operations call `here`
#[derive(Debug)]
struct Hk(Zp);
impl Clone for Hk {
    fn clone(&self) -> Hk {
        here();
        Hk(self.0)
    }
}
impl PartialEq for Hk {
    fn eq(&self, o: &Hk) -> bool {
        here();
        self.0 == o.0
    }
}
impl From<i8> for Hk {
    fn from(x: i8) -> Hk {
        here();
        Hk(Zp::new(x as i128))
    }
}
impl Conj for Hk {
    fn conj(self) -> Hk {
        here();
        self
    }
}
impl std::ops::Neg for Hk {
    type Output = Hk;
    fn neg(self) -> Hk {
        here();
        Hk(self.0.m_neg())
    }
}
macro_rules! hk_ops {
    ($($t:ident $f:ident $at:ident $af:ident $m:ident)*) => {$(
        impl std::ops::$t for Hk {
            type Output = Hk;
            fn $f(self, o: Hk) -> Hk {
                here();
                Hk(self.0.$m(&o.0))
            }
        }
        impl std::ops::$t<&Hk> for Hk {
            type Output = Hk;
            fn $f(self, o: &Hk) -> Hk {
                here();
                Hk(self.0.$m(&o.0))
            }
        }
        impl std::ops::$t<&Hk> for &Hk {
            type Output = Hk;
            fn $f(self, o: &Hk) -> Hk {
                here();
                Hk(self.0.$m(&o.0))
            }
        }
        impl std::ops::$at for Hk {
            fn $af(&mut self, o: Hk) {
                here();
                self.0 = self.0.$m(&o.0);
            }
        }
        impl std::ops::$at<&Hk> for Hk {
            fn $af(&mut self, o: &Hk) {
                here();
                self.0 = self.0.$m(&o.0);
            }
        }
    )*};
}
hk_ops!(Add add AddAssign add_assign m_add Sub sub SubAssign sub_assign m_sub Mul mul MulAssign mul_assign m_mul);
impl Ring for Hk {}
impl Digest for Hk {
    fn dig(&self) -> u64 {
        self.0 .0
    }
}

#[derive(Clone)]
struct HkRng(Rng);
impl rand::RngCore for HkRng {
    fn next_u32(&mut self) -> u32 {
        here();
        (self.0.u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        here();
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

struct HPool {
    p: Vec<Polynomial<Hk>>,
    z: Vec<Complex<Hk>>,
    s: Vec<SVector<Hk, 3>>,
    m: Vec<SMatrix<Hk, 3, 3>>,
    v: Vec<DVector<Hk>>,
    w: Vec<DVector<Complex<Hk>>>,
    d: Vec<DMatrix<Hk>>,
    seed: u64,
}
impl HPool {
    fn gen(r: &mut Rng) -> HPool {
        let (mut n, mut a) = (1 + r.below(5), 1 + r.below(4));
        if !cfg!(miri) && r.chance(1, 6) {
            n = r.pick(&[33, 65, 129, 300]);
            a = r.pick(&[6, 9, 12]);
        }
        let g = |r: &mut Rng| Hk(Zp::gen(r));
        fn vecs<T: Clone>(r: &mut Rng, n: usize, f: impl Fn(&mut Rng) -> T) -> Vec<DVector<T>> {
            (0..H).map(|_| { let v: Vec<T> = (0..n).map(|_| f(r)).collect(); (&v[..]).eval() }).collect()
        }
        HPool {
            p: (0..H).map(|_| { let k = r.below(7); Polynomial::from_coefficients((0..k).map(|_| g(r)).collect()) }).collect(),
            z: (0..H).map(|_| Complex::new(g(r), g(r))).collect(),
            s: (0..H).map(|_| SVector(std::array::from_fn(|_| g(r)))).collect(),
            m: (0..H).map(|_| SMatrix::from(std::array::from_fn(|_| std::array::from_fn(|_| g(r))))).collect(),
            v: vecs(r, n, g),
            w: vecs(r, n, |r| Complex::new(g(r), g(r))),
            d: (0..H).map(|_| { let v: Vec<Hk> = (0..a * a).map(|_| g(r)).collect(); make_matrix_expr(a, a, |i, j| Hk(v[i * a + j].0)).eval() }).collect(),
            seed: r.u64(),
        }
    }
}
const H: usize = 2;
fn hk_poly(p: &Polynomial<Hk>) -> u64 {
    fold(p.eval(Hk(Zp(3))).dig(), p.eval_ref(&Hk(Zp(1 << 40))).dig())
}
fn hk_mat(m: &SMatrix<Hk, 3, 3>) -> u64 {
    (0..3).fold(5, |h, j| {
        let e = SVector::<Hk, 3>(std::array::from_fn(|k| Hk(Zp((k == j) as u64))));
        fold(h, (m * &e).dig())
    })
}
type HOp = fn(&HPool, usize, usize) -> u64;
#[rustfmt::skip]
const HOPS: &[(&str, HOp)] = &[
    ("poly +", |p, i, j| hk_poly(&(p.p[i].clone() + p.p[j].clone()))),
    ("poly -", |p, i, j| hk_poly(&(p.p[i].clone() - p.p[j].clone()))),
    ("poly & *", |p, i, j| hk_poly(&(&p.p[i] * &p.p[j]))),
    ("poly *", |p, i, j| hk_poly(&(p.p[i].clone() * p.p[j].clone()))),
    ("poly *=", |p, i, j| { let mut t = p.p[i].clone(); t *= p.p[j].clone(); t -= &p.p[i]; hk_poly(&t) }),
    ("poly ==", |p, i, j| (p.p[i] == p.p[j]).dig()),
    ("poly neg", |p, i, _| hk_poly(&-p.p[i].clone())),
    ("complex *", |p, i, j| (&p.z[i] * &p.z[j]).dig()),
    ("complex + -", |p, i, j| ((p.z[i].clone() + p.z[j].clone()).conj() - p.z[i].clone()).dig()),
    ("complex *=", |p, i, j| { let mut t = p.z[i].clone(); t *= p.z[j].clone(); t += &p.z[i]; t.dig() }),
    ("sqr_norm", |p, i, _| p.z[i].clone().sqr_norm().dig()),
    ("svector", |p, i, j| { let mut t = p.s[i].clone() + &p.s[j]; t *= Hk(Zp(7)); t -= &p.s[i]; t.dig() }),
    ("svector dot", |p, i, j| (p.s[i].clone() * &p.s[j]).dig()),
    ("smatrix *", |p, i, j| hk_mat(&(&p.m[i] * &p.m[j]))),
    ("smatrix vector", |p, i, j| (&p.m[i] * &p.s[j]).dig()),
    ("smatrix + -", |p, i, j| hk_mat(&(p.m[i].clone() + &p.m[j] - p.m[i].clone()))),
    ("dvector + -", |p, i, j| ((&p.v[i] + &p.v[j]) - &p.v[i]).eval().dig()),
    ("dvector +=", |p, i, j| { let mut t = p.v[i].clone(); t += &p.v[j]; t -= p.v[j].mul_elemwise(&p.v[i]); t.dig() }),
    ("dvector *", |p, i, j| (&p.v[i] * &p.v[j]).dig()),
    ("dvector complex *", |p, i, j| (&p.w[i] * &p.w[j]).dig()),
    ("dvector conj", |p, i, _| p.w[i].conj().eval().dig()),
    ("dvector diag", |p, i, _| p.v[i].diag().eval().dig()),
    ("dvector ==", |p, i, j| (p.v[i] == p.v[j]).dig()),
    ("dvector map zip", |p, i, j| (&p.v[i]).wrap().zip(&p.v[j]).map(|(x, y)| { here(); x * y }).eval().dig()),
    ("dvector from function", |p, i, _| { let v = &p.v[i]; make_vector_expr(v.len(), |k| { here(); v[k].clone() }).eval().dig() }),
    ("dmatrix *", |p, i, j| (&p.d[i] * &p.d[j]).eval().dig()),
    ("dmatrix + t", |p, i, j| (&p.d[i] + p.d[j].t()).h().eval().dig()),
    ("dmatrix +=", |p, i, j| { let mut t = p.d[i].clone(); t += &p.d[j]; t -= p.d[j].t(); t.dig() }),
    ("dmatrix diag", |p, i, _| p.d[i].diag().eval().dig()),
    ("dmatrix map", |p, i, _| (&p.d[i]).wrap().map(|x: Hk| { here(); x + Hk(Zp(5)) }).eval().dig()),
    ("dmatrix ==", |p, i, j| (p.d[i] == p.d[j]).dig()),
    ("optimise", |p, i, j| {
        let mut g = HkRng(Rng::new(p.seed + i as u64));
        let c = j as f64;
        magnesia::optimize::differential_evolution(&[(-3.0f64, 3.0); 3], 4 + i + 2 * j, 0.7, 0.6, 40, &mut g, |a, b| {
            here();
            let f = |x: &[f64; 3]| (x[0] - c).abs() + x[1].abs() + x[2].abs();
            f(a) < f(b)
        }).dig()
    }),
];
fn htable(p: &HPool) -> (Vec<u64>, Vec<u64>) {
    let (mut t, mut ticks) = (vec![], vec![]);
    for (_, op) in HOPS {
        for i in 0..H {
            for j in 0..H {
                pending(u64::MAX, None);
                t.push(op(p, i, j));
                ticks.push(COUNT.get());
            }
        }
    }
    (t, ticks)
}

/// Operations invoked from the element operations, closures, comparators and
/// generators of other operations, and operations cut short by a panic.
fn reentrant(r: &mut Rng, l: &mut Log) -> Res {
    let (p, h) = (Rc::new(Pool::gen(r)), Rc::new(HPool::gen(r)));
    let (want, (hwant, ticks)) = fresh(|| (table(&p), htable(&h)))?;
    let want = Rc::new(want);
    let hwant = Rc::new(hwant);
    let wrong: Rc<RefCell<Option<String>>> = Rc::default();
    for step in 0..if cfg!(miri) { 40 } else { 400 } {
        let (k, i, j) = (r.below(HOPS.len()), r.below(H), r.below(H));
        let at = (k * H + i) * H + j;
        let tick = r.below(ticks[at].max(1) as usize) as u64;
        let name = HOPS[k].0;
        let cut = r.chance(1, 4);
        let mut s = Rng::new(r.u64());
        let (pp, hh, ww, hw, bad) = (p.clone(), h.clone(), want.clone(), hwant.clone(), wrong.clone());
        let inner = move || {
            for _ in 0..3 {
                let (x, y) = (s.below(K), s.below(K));
                // often the operation in progress, else any other
                if s.chance(1, 2) {
                    let q = if s.chance(1, 2) { k } else { s.below(HOPS.len()) };
                    let (x, y) = (x % H, y % H);
                    if (HOPS[q].1)(&hh, x, y) != hw[(q * H + x) * H + y] {
                        *bad.borrow_mut() = Some(format!("{}({x}, {y}) over hooked elements", HOPS[q].0));
                    }
                } else {
                    let q = s.below(OPS.len());
                    if (OPS[q].1)(&pp, x, y) != ww[(q * K + x) * K + y] {
                        *bad.borrow_mut() = Some(format!("{}({x}, {y})", OPS[q].0));
                    }
                }
            }
        };
        if cut {
            pending(tick, Some(Box::new(|| panic!("{INTERRUPT}"))));
            let got = caught(|| (HOPS[k].1)(&h, i, j));
            match got {
                Err(e) => ensure!(e.contains(INTERRUPT), "step {step}: {name}({i}, {j}), interrupted at tick {tick}, {e}"),
                Ok(v) => ensure!(v == hwant[at] && COUNT.get() <= tick, "step {step}: {name}({i}, {j}) swallowed a panic of an element"),
            }
            pending(u64::MAX, None);
            // and right afterwards, what was asked for
            let mut inner = inner;
            inner();
            l.count("operations after an interrupted one", 3);
        } else {
            pending(tick, Some(Box::new(inner)));
            let got = caught(|| (HOPS[k].1)(&h, i, j));
            let fired = COUNT.get() > tick;
            pending(u64::MAX, None);
            let got = got.map_err(|e| format!("step {step}: {name}({i}, {j}), with other operations performed inside at tick {tick}, {e}"))?;
            ensure!(got == hwant[at], "step {step}: {name}({i}, {j}) gives another result when other operations are performed inside it at tick {tick}");
            l.count("operations with others inside", fired as u64);
        }
        if let Some(w) = wrong.borrow_mut().take() {
            return Err(format!("step {step}: {w} gives another result {} {name}({i}, {j}) at tick {tick}", if cut { "after interrupting" } else { "inside" }));
        }
        l.case(key_of(&(at, tick, cut, h.seed)), true);
    }
    Ok(())
}

fn main() {
    let run = Run::new("C26", "a pool of operands whose complete operation table was recorded once and compared with later or concurrent executions; for types, one whose Send and Sync were decided");
    run.cases("shareable", 1, shareable);
    run.cases("history", run.n(4, 200), history);
    run.cases("threads", run.n(6, 250), threads);
    run.cases("reentrant", run.n(10, 300), reentrant);
    run.cases("expressions", run.n(20, 800), expressions);
    if !cfg!(miri) {
        run.require("concurrent operations", 10_000);
        run.require("repeated operations", 10_000);
        run.require("cold starts", 1);
        run.require("operations with others inside", 10_000);
        run.require("operations after an interrupted one", 5_000);
    }
    run.require("shareable types", 30);
    run.finish()
}
