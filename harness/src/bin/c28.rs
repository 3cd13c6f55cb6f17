//! C28: equality, cloning and conversion of containers.
use harness::elems::*;
use harness::ensure;
use harness::expr::{dm, dv};
use harness::mm::Mm;
use harness::run::{caught, key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Polynomial};
use magnesia::linalg::*;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static CLONES: AtomicU64 = AtomicU64::new(0);

/// An element whose == is its own affair: classes modulo 4, class 3 equals
/// nothing (as NaN does). `tag` survives cloning but is no part of equality.
#[derive(Debug)]
struct Odd {
    class: u8,
    tag: u64,
}
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.class == o.class && self.class != 3
    }
}
impl Clone for Odd {
    fn clone(&self) -> Odd {
        CLONES.fetch_add(1, Relaxed);
        Odd { class: self.class, tag: self.tag }
    }
}

trait Item: Clone + PartialEq + Debug {
    const NAME: &'static str;
    fn make(r: &mut Rng) -> Self;
    /// equal under == and a clone of it in every observable respect
    fn twin(&self, o: &Self) -> bool;
}
impl Item for Odd {
    const NAME: &'static str = "Odd";
    fn make(r: &mut Rng) -> Odd {
        let class = if r.chance(1, 60) { 3 } else { r.below(3) as u8 };
        Odd { class, tag: r.u64() }
    }
    fn twin(&self, o: &Odd) -> bool {
        self.class == o.class && self.tag == o.tag
    }
}
impl Item for f64 {
    const NAME: &'static str = "f64";
    fn make(r: &mut Rng) -> f64 {
        match r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 if r.chance(1, 8) => f64::NAN,
            3 => f64::INFINITY,
            _ => r.range(-2, 2) as f64,
        }
    }
    fn twin(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Item for i64 {
    const NAME: &'static str = "i64";
    fn make(r: &mut Rng) -> i64 {
        r.pick(&[0, 1, 2, -1, i64::MAX, i64::MIN, 1 << 32])
    }
    fn twin(&self, o: &i64) -> bool {
        self == o
    }
}
impl Item for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn make(r: &mut Rng) -> Vec<u8> {
        (0..r.below(3)).map(|_| r.below(2) as u8).collect()
    }
    fn twin(&self, o: &Vec<u8>) -> bool {
        self == o
    }
}
impl Item for Complex<f64> {
    const NAME: &'static str = "Complex<f64>";
    fn make(r: &mut Rng) -> Self {
        Complex { re: <f64 as Item>::make(r), im: <f64 as Item>::make(r) }
    }
    fn twin(&self, o: &Self) -> bool {
        self.re.twin(&o.re) && self.im.twin(&o.im)
    }
}

/// zero-sized, large and over-aligned elements
impl Item for () {
    const NAME: &'static str = "()";
    fn make(_: &mut Rng) {}
    fn twin(&self, _: &()) -> bool {
        true
    }
}
impl Item for [u16; 150] {
    const NAME: &'static str = "[u16; 150]";
    fn make(r: &mut Rng) -> Self {
        let mut v = [7; 150];
        v[r.pick(&[0, 1, 75, 149])] = r.below(3) as u16;
        v
    }
    fn twin(&self, o: &Self) -> bool {
        self == o
    }
}
#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
struct Aligned(u8);
impl Item for Aligned {
    const NAME: &'static str = "Aligned";
    fn make(r: &mut Rng) -> Self {
        Aligned(r.below(3) as u8)
    }
    fn twin(&self, o: &Self) -> bool {
        self == o && self as *const Self as usize % 64 == 0
    }
}

fn all_eq<T: Item>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
fn twins<T: Item>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.twin(y))
}

/// b is a itself, nearly a, or unrelated; the lengths may differ
fn partner<T: Item>(r: &mut Rng, a: &[T]) -> Vec<T> {
    let mut b = a.to_vec();
    match r.below(8) {
        0 | 1 => {}
        2 | 3 if !a.is_empty() => {
            let k = match r.below(3) {
                0 => 0,
                1 => a.len() - 1,
                _ => r.below(a.len()),
            };
            b[k] = T::make(r);
        }
        4 => {
            b.pop();
        }
        5 => b.push(T::make(r)),
        6 if a.len() > 1 => {
            let (i, j) = (r.below(a.len()), r.below(a.len()));
            b.swap(i, j);
        }
        _ => b = (0..a.len()).map(|_| T::make(r)).collect(),
    }
    b
}

/// a == b in all the ways it can be asked
fn verdicts<T: PartialEq + Debug>(a: &T, b: &T, want: bool, what: &str) -> Res {
    for (how, got) in [("==", caught(|| a == b)), ("reversed ==", caught(|| b == a)), ("!=", caught(|| !(a != b))), ("== of references", caught(|| &a == &b))] {
        ensure!(got == Ok(want), "{what}: {how} says {got:?}, want {want}: {a:?} against {b:?}");
    }
    Ok(())
}

fn vectors<T: Item>(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let m: Vec<T> = (0..n).map(|_| T::make(r)).collect();
    let o = partner(r, &m);
    let build = |v: &[T]| {
        let w = v.to_vec();
        make_vector_expr(v.len(), move |i| w[i].clone()).eval()
    };
    let content = |v: &DVector<T>| (0..v.len()).map(|i| v[i].clone()).collect::<Vec<T>>();
    let (a, b) = (build(&m), build(&o));
    let eq = all_eq(&m, &o);
    verdicts(&a, &b, eq, &format!("vectors over {} of lengths {n} and {}", T::NAME, o.len()))?;
    verdicts(&a, &a, all_eq(&m, &m), "vector against itself")?;
    let s = (&m[..]).eval();
    ensure!(twins(&content(&s), &m), "evaluating a slice of {m:?} gives {s:?}");
    verdicts(&a, &s, all_eq(&m, &m), "vector against the evaluated slice")?;
    // cloning
    let mut c = a.clone();
    ensure!(twins(&content(&c), &m), "clone of the vector {m:?} is {c:?}");
    verdicts(&a, &c, all_eq(&m, &m), "vector against its clone")?;
    if n > 0 {
        let (k, x) = (r.below(n), T::make(r));
        let mut w = m.clone();
        w[k] = x.clone();
        c[k] = x.clone();
        ensure!(twins(&content(&a), &m) && twins(&content(&c), &w), "writing element {k} of a clone: original {a:?} (was {m:?}), clone {c:?}");
        let mut a2 = a.clone();
        let d = a2.clone();
        a2[k] = x;
        ensure!(twins(&content(&d), &m), "writing element {k} of the original changed its clone to {d:?}");
    }
    let mut d = b.clone();
    d.clone_from(&a);
    ensure!(twins(&content(&d), &m), "clone_from gives {d:?}, want {m:?}");
    drop(a);
    ensure!(twins(&content(&d), &m), "a clone changed when the original was dropped: {d:?}");
    l.case(key_of(&("v", T::NAME, &m, &o)), n + o.len() > 0);
    l.count(if eq { "equal vectors" } else { "unequal vectors" }, 1);
    l.count(T::NAME, 1);
    l.max("length", n as u64);
    l.sample(|| format!("vectors over {}: {m:?} against {o:?}: {eq}", T::NAME));
    Ok(())
}

fn matrices<T: Item>(r: &mut Rng, l: &mut Log, a: usize, b: usize) -> Res {
    let m = Mm::<T>::new(a, b, |_, _| T::make(&mut Rng::new(0)));
    let m = Mm { v: m.v.iter().map(|_| T::make(r)).collect(), ..m };
    let o = match r.below(6) {
        // the same entries in another shape
        0 => Mm { r: b, c: a, v: m.v.clone() },
        1 => {
            let mut d = 1 + r.below(12);
            while a * b > 0 && (a * b) % d != 0 {
                d -= 1;
            }
            if a * b == 0 {
                if r.chance(1, 2) { Mm { r: 0, c: d, v: vec![] } } else { Mm { r: d, c: 0, v: vec![] } }
            } else {
                Mm { r: d, c: a * b / d, v: m.v.clone() }
            }
        }
        2 => m.t(),
        3 if a > 1 => Mm { r: a - 1, c: b, v: m.v[..(a - 1) * b].to_vec() },
        _ => {
            let mut v = partner(r, &m.v);
            while v.len() < a * b {
                v.push(T::make(r));
            }
            v.truncate(a * b);
            Mm { r: a, c: b, v }
        }
    };
    let build = |q: &Mm<T>| {
        let w = q.clone();
        make_matrix_expr(q.r, q.c, move |i, j| w.at(i, j).clone()).eval()
    };
    let content = |x: &DMatrix<T>| Mm::new(x.num_rows(), x.num_cols(), |i, j| x[[i, j]].clone());
    let same = |x: &DMatrix<T>, q: &Mm<T>| x.num_rows() == q.r && x.num_cols() == q.c && twins(&content(x).v, &q.v);
    let (x, y) = (build(&m), build(&o));
    let eq = m.r == o.r && m.c == o.c && all_eq(&m.v, &o.v);
    verdicts(&x, &y, eq, &format!("matrices over {} of shapes {a}x{b} and {}x{}", T::NAME, o.r, o.c))?;
    verdicts(&x, &x, all_eq(&m.v, &m.v), "matrix against itself")?;
    let mut c = x.clone();
    ensure!(same(&c, &m), "clone of the matrix {m:?} is {c:?}");
    verdicts(&x, &c, all_eq(&m.v, &m.v), "matrix against its clone")?;
    if a * b > 0 {
        let (i, j, e) = (r.below(a), r.below(b), T::make(r));
        let mut w = m.clone();
        w.v[i * b + j] = e.clone();
        c[[i, j]] = e;
        ensure!(same(&x, &m) && same(&c, &w), "writing ({i},{j}) of a clone: original {x:?} (was {m:?}), clone {c:?}");
    }
    let mut d = y.clone();
    d.clone_from(&x);
    ensure!(same(&d, &m), "clone_from gives {d:?}, want {m:?}");
    drop(x);
    ensure!(same(&d, &m), "a clone changed when the original was dropped: {d:?}");
    if m.v.len() == o.v.len() && (m.r, m.c) != (o.r, o.c) {
        l.count("as many entries in another shape", 1);
        if m.v.is_empty() {
            l.count("empty matrices of different shapes", 1);
        }
    }
    l.case(key_of(&("m", T::NAME, &m, &o)), a * b > 0);
    l.count(if eq { "equal matrices" } else { "unequal matrices" }, 1);
    l.count(T::NAME, 1);
    l.sample(|| format!("matrices over {}: {m:?} against {o:?}: {eq}", T::NAME));
    Ok(())
}

fn svectors<T: Item, const D: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let m: [T; D] = std::array::from_fn(|_| T::make(r));
    let mut o = partner(r, &m);
    while o.len() < D {
        o.push(T::make(r));
    }
    let o: [T; D] = std::array::from_fn(|i| o[i].clone());
    let (a, b) = (SVector::from(m.clone()), SVector(o.clone()));
    ensure!(twins(&a.0, &m) && twins(&b.0, &o), "SVector::from({m:?}) is {a:?}");
    let i: SVector<T, D> = m.clone().into();
    ensure!(twins(&i.0, &m), "into() gives {i:?}, want {m:?}");
    let eq = all_eq(&m, &o);
    verdicts(&a, &b, eq, &format!("static vectors over {} of dimension {D}", T::NAME))?;
    verdicts(&a, &a, all_eq(&m, &m), "static vector against itself")?;
    let mut c = a.clone();
    ensure!(twins(&c.0, &m), "clone of {m:?} is {c:?}");
    if D > 0 {
        let (k, e) = (r.below(D), T::make(r));
        let mut w = m.clone();
        w[k] = e.clone();
        c[k] = e;
        ensure!(twins(&a.0, &m) && twins(&c.0, &w), "writing component {k} of a clone: original {a:?}, clone {c:?}, want {m:?} and {w:?}");
    }
    ensure!(twins(&a.into_iter().collect::<Vec<_>>(), &m), "iterating {m:?} by value gives other components");
    l.case(key_of(&("s", T::NAME, D, &m, &o)), D > 0);
    l.count(if eq { "equal static vectors" } else { "unequal static vectors" }, 1);
    Ok(())
}

/// SMatrix has no accessor of its own; times a unit vector it shows a column
fn smatrices<const R: usize, const C: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let gen = |r: &mut Rng| -> [[Zp; C]; R] { std::array::from_fn(|_| std::array::from_fn(|_| Zp::m_int(r.range(-1, 1) as i8))) };
    let m = gen(r);
    let mut o = if r.chance(1, 6) { gen(r) } else { m };
    if R * C > 0 && r.chance(1, 2) {
        let (i, j) = (r.below(R), r.below(C));
        o[i][j] = Zp(r.u64() >> 4);
    }
    let (a, b) = (SMatrix::from(m), SMatrix::from(o));
    for (x, q) in [(&a, &m), (&b, &o)] {
        for j in 0..C {
            let e: [Zp; C] = std::array::from_fn(|k| Zp((k == j) as u64));
            let col = x * &SVector::from(e);
            for i in 0..R {
                ensure!(col[i] == q[i][j], "entry ({i},{j}) of SMatrix::from({q:?}) is {:?}", col[i]);
            }
        }
    }
    verdicts(&a, &b, m == o, &format!("static matrices {R}x{C}"))?;
    verdicts(&a, &a, true, "static matrix against itself")?;
    let (c, d) = (a.clone(), a);
    verdicts(&a, &c, true, "static matrix against its clone")?;
    verdicts(&a, &d, true, "static matrix against its copy")?;
    l.case(key_of(&("sm", R, C, &m, &o)), R * C > 0);
    l.count(if m == o { "equal static matrices" } else { "unequal static matrices" }, 1);
    Ok(())
}

fn complex<T: Item>(r: &mut Rng, l: &mut Log) -> Res {
    let (a, b) = (T::make(r), T::make(r));
    let (c, d) = (if r.chance(1, 2) { a.clone() } else { T::make(r) }, if r.chance(1, 2) { b.clone() } else { T::make(r) });
    let (x, y) = (Complex::new(a.clone(), b.clone()), Complex { re: c.clone(), im: d.clone() });
    ensure!(x.re.twin(&a) && x.im.twin(&b), "Complex::new({a:?}, {b:?}) is {x:?}");
    let eq = a == c && b == d;
    verdicts(&x, &y, eq, &format!("complex numbers over {}", T::NAME))?;
    verdicts(&x, &x, a == a && b == b, "complex number against itself")?;
    let mut z = x.clone();
    ensure!(z.re.twin(&a) && z.im.twin(&b), "clone of {x:?} is {z:?}");
    z.re = c;
    ensure!(x.re.twin(&a) && x.im.twin(&b), "writing a clone changed the original to {x:?}");
    l.case(key_of(&("c", T::NAME, &x, &y)), true);
    l.count(if eq { "equal complex numbers" } else { "unequal complex numbers" }, 1);
    Ok(())
}

fn polynomials(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.size(40);
    polynomials_of(r, l, n)
}
fn polynomials_of(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let mut m = gen_vec::<Zp>(r, n);
    let o = match r.below(6) {
        0 => m.iter().cloned().chain(vec![Zp(0); r.below(4)]).collect(),
        1 => {
            let mut v = m.clone();
            v.pop();
            v
        }
        2 => m.iter().cloned().chain([Zp::gen(r)]).collect(),
        3 => gen_related::<Zp>(r, &m, n),
        4 => {
            // zeros only, but not equally many
            m = vec![Zp(0); n];
            vec![Zp(0); r.below(4)]
        }
        _ => {
            let k = r.below(n + 1);
            let mut v = vec![Zp(0); k];
            v.extend_from_slice(&m);
            v
        }
    };
    let (p, q) = (Polynomial::from_coefficients(m.clone()), Polynomial::from_coefficients(o.clone()));
    let eq = harness::poly::eq(&m, &o);
    verdicts(&p, &q, eq, "polynomials")?;
    verdicts(&p, &p, true, "polynomial against itself")?;
    let mut c = p.clone();
    verdicts(&p, &c, true, "polynomial against its clone")?;
    let one = Polynomial::from_coefficients(vec![Zp(1)]);
    c += &one;
    verdicts(&p, &c, false, "polynomial against its changed clone")?;
    c -= &one;
    verdicts(&p, &c, true, "polynomial against its clone changed back")?;
    let x = Zp(r.u64() >> 4);
    ensure!(p.eval(x) == harness::poly::eval(&m, &x), "a polynomial changed with its clone: {p:?}, was {m:?}");
    l.case(key_of(&("p", &m, &o)), n > 0);
    l.count(if eq { "equal polynomials" } else { "unequal polynomials" }, 1);
    if eq && m.len() != o.len() {
        l.count("equal polynomials of different lengths", 1);
    }
    Ok(())
}

/// coefficients and entries with signed zeros and NaN
fn partial(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.size(24);
    let mut m: Vec<f64> = (0..n).map(|_| <f64 as Item>::make(r)).collect();
    let mut o = partner(r, &m);
    for v in [&mut m, &mut o] {
        for _ in 0..r.pick(&[0, 0, 1, 3]) {
            v.push(r.pick(&[0.0, -0.0]));
        }
    }
    let eq = |a: &[f64], b: &[f64]| (0..a.len().max(b.len())).all(|i| a.get(i).unwrap_or(&0.0) == b.get(i).unwrap_or(&0.0));
    let (p, q) = (Polynomial::from_coefficients(m.clone()), Polynomial::from_coefficients(o.clone()));
    verdicts(&p, &q, eq(&m, &o), "polynomials over f64")?;
    verdicts(&p, &p, eq(&m, &m), "polynomial over f64 against itself")?;
    verdicts(&p, &p.clone(), eq(&m, &m), "polynomial over f64 against its clone")?;
    l.case(key_of(&("pf", &m, &o)), n > 0);
    l.count("polynomials with a coefficient unequal to itself", !eq(&m, &m) as u64);

    let a: [[f64; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| <f64 as Item>::make(r)));
    let mut b = a;
    if r.chance(1, 2) {
        b[r.below(2)][r.below(3)] = <f64 as Item>::make(r);
    }
    let all = |b: &[[f64; 3]; 2]| a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| x == y);
    let (x, y) = (SMatrix::from(a), SMatrix::from(b));
    verdicts(&x, &y, all(&b), "static matrices over f64")?;
    verdicts(&x, &x, all(&a), "static matrix over f64 against itself")?;
    l.case(key_of(&("smf", &format!("{a:?}{b:?}"))), true);
    Ok(())
}

/// nested arrays and what they are converted to
fn arrays(r: &mut Rng, l: &mut Log) -> Res {
    fn one<const R: usize, const C: usize>(r: &mut Rng) -> Res {
        let m: [[Odd; C]; R] = std::array::from_fn(|_| std::array::from_fn(|_| Odd::make(r)));
        let x = m.clone().eval();
        let y = m.clone().wrap();
        ensure!(x.num_rows() == R && x.num_cols() == C && y.num_rows() == R && y.num_cols() == C, "nested array {R}x{C} becomes {}x{}", x.num_rows(), x.num_cols());
        for i in 0..R {
            for j in 0..C {
                ensure!(x[[i, j]].twin(&m[i][j]) && y.entry(i, j).twin(&m[i][j]), "entry ({i},{j}) of the nested array {m:?} becomes {:?}", x[[i, j]]);
            }
        }
        Ok(())
    }
    one::<1, 1>(r)?;
    one::<2, 3>(r)?;
    one::<3, 2>(r)?;
    one::<1, 9>(r)?;
    one::<9, 1>(r)?;
    one::<5, 5>(r)?;
    one::<0, 4>(r)?;
    one::<4, 0>(r)?;
    l.case(r.u64(), true);
    l.count("nested arrays", 8);
    let (u, v) = (gen_vec::<Tok>(r, 5), gen_vec::<Tok>(r, 6));
    let (p, q) = (dv(&u), dm(&Mm { r: 2, c: 3, v: v.clone() }));
    ensure!((0..5).all(|i| p[i] == u[i]) && (0..6).all(|k| q[[k / 3, k % 3]] == v[k]), "building containers from {u:?} and {v:?} misplaces elements");
    Ok(())
}

fn main() {
    let run = Run::new("C28", "a pair of values of one container type whose comparison, cloning and conversion were observed; non-trivial if they have elements");
    for k in ["vectors", "matrices", "static vectors", "static matrices", "complex numbers", "polynomials"] {
        run.require(&format!("equal {k}"), 300);
        run.require(&format!("unequal {k}"), 300);
    }
    run.require("as many entries in another shape", 200);
    run.require("empty matrices of different shapes", 50);
    run.require("equal polynomials of different lengths", 50);
    for k in ["()", "Aligned", "[u16; 150]"] {
        run.require(k, 200);
    }
    run.require("polynomials with a coefficient unequal to itself", 50);
    run.cases("vectors", run.n(500, 20_000), |r, l| {
        let n = if r.chance(1, 40) { r.size(1000) } else { r.size(40) };
        match r.below(8) {
            0 => vectors::<Odd>(r, l, n),
            5 => vectors::<()>(r, l, n),
            6 => vectors::<[u16; 150]>(r, l, n.min(60)),
            7 => vectors::<Aligned>(r, l, n),
            1 => vectors::<f64>(r, l, n),
            2 => vectors::<i64>(r, l, n),
            3 => vectors::<Complex<f64>>(r, l, n),
            _ => vectors::<Vec<u8>>(r, l, n),
        }
    });
    run.cases("matrices", run.n(500, 20_000), |r, l| {
        let (a, b) = if r.chance(1, 40) { r.pick(&[(30, 40), (64, 2), (2, 64), (1, 200)]) } else { (r.below(6), r.below(6)) };
        match r.below(8) {
            0 => matrices::<Odd>(r, l, a, b),
            5 => matrices::<()>(r, l, a, b),
            6 => matrices::<[u16; 150]>(r, l, a, b.min(60)),
            7 => matrices::<Aligned>(r, l, a, b),
            1 => matrices::<f64>(r, l, a, b),
            2 => matrices::<i64>(r, l, a, b),
            3 => matrices::<Complex<f64>>(r, l, a, b),
            _ => matrices::<Vec<u8>>(r, l, a, b),
        }
    });
    // beyond 2^16 elements, differing in one place only
    run.cases("huge", run.n(2, 60), |r, l| {
        let n = r.huge();
        match r.below(3) {
            0 => vectors::<i64>(r, l, n)?,
            1 => vectors::<Odd>(r, l, n)?,
            _ => vectors::<()>(r, l, n)?,
        }
        let (a, b) = r.huge_shape();
        match r.below(3) {
            0 => matrices::<i64>(r, l, a, b)?,
            1 => matrices::<Complex<f64>>(r, l, a, b)?,
            _ => matrices::<()>(r, l, a, b)?,
        }
        let n = r.huge();
        polynomials_of(r, l, n)
    });
    run.cases("static-vectors", run.n(50, 2000), |r, l| {
        svectors::<Odd, 0>(r, l)?;
        svectors::<Odd, 1>(r, l)?;
        svectors::<f64, 2>(r, l)?;
        svectors::<Odd, 3>(r, l)?;
        svectors::<i64, 4>(r, l)?;
        svectors::<Vec<u8>, 7>(r, l)?;
        svectors::<Complex<f64>, 5>(r, l)?;
        svectors::<(), 5>(r, l)?;
        svectors::<Aligned, 4>(r, l)?;
        svectors::<[u16; 150], 3>(r, l)?;
        svectors::<f64, 33>(r, l)
    });
    run.cases("static-matrices", run.n(50, 2000), |r, l| {
        smatrices::<0, 0>(r, l)?;
        smatrices::<1, 1>(r, l)?;
        smatrices::<2, 3>(r, l)?;
        smatrices::<3, 2>(r, l)?;
        smatrices::<4, 4>(r, l)?;
        smatrices::<0, 2>(r, l)?;
        smatrices::<1, 8>(r, l)?;
        smatrices::<9, 2>(r, l)
    });
    run.cases("complex", run.n(300, 10_000), |r, l| match r.below(4) {
        0 => complex::<Odd>(r, l),
        1 => complex::<f64>(r, l),
        2 => complex::<i64>(r, l),
        _ => complex::<Vec<u8>>(r, l),
    });
    run.cases("polynomials", run.n(300, 10_000), polynomials);
    run.cases("partial", run.n(300, 10_000), partial);
    run.cases("arrays", run.n(20, 500), arrays);
    run.finish()
}
