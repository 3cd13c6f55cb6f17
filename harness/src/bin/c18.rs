//! C18: element access addresses exactly the named element or panics.
use harness::elems::*;
use harness::ensure;
use harness::expr::{dm, dv, is_mat, is_vec};
use harness::mm::Mm;
use harness::run::{caught, key_of, Log, Res, Rng, Run};
use magnesia::linalg::*;

/// Indices worth trying against a bound n, given the other dimension.
fn indices(r: &mut Rng, n: usize, other: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n + 3).collect();
    v.extend([2 * n, 2 * n + 1, n * other, n * other + 1, 1 << 16, 1 << 32, 1 << 63, usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1]);
    if other > 0 {
        // row * other wraps around to a small number
        for k in [1u128, 2, 3, other as u128 - 1, other as u128 / 2] {
            let q = (k << 64) / other as u128;
            for d in 0..2 {
                if let Ok(x) = usize::try_from(q + d) {
                    v.push(x);
                }
            }
        }
    }
    // col that brings a large row back to an element
    v.push(0usize.wrapping_sub(other));
    v.push(0usize.wrapping_sub(2 * other).wrapping_add(1));
    v.push(r.u64() as usize);
    v
}

fn matrix(r: &mut Rng, l: &mut Log, a: usize, b: usize) -> Res {
    let m = Mm::<Tok>::gen(r, a, b);
    let x = dm(&m);
    let rx = &x;
    let (rows, cols) = (indices(r, a, b), indices(r, b, a));
    for &i in &rows {
        for &j in &cols {
            let inside = i < a && j < b;
            if !inside && rows.len() * cols.len() > 1200 && !r.chance(1, 4) {
                continue;
            }
            l.case(key_of(&(a, b, i, j, &m.v)), true);
            l.count(if inside { "inside" } else { "outside" }, 1);
            if !inside && i.wrapping_mul(b).wrapping_add(j) < a * b {
                l.count("outside_aliasing_flat_index", 1);
            }
            let reads = [
                ("index", caught(|| x[[i, j]])),
                ("entry", caught(|| MatrixExpr::entry(&x, i, j))),
                ("entry by reference", caught(|| MatrixExpr::entry(&rx, i, j))),
                ("entry of the wrapped reference", caught(|| rx.wrap().entry(i, j))),
            ];
            for (how, g) in reads {
                if inside {
                    ensure!(g.as_ref().ok() == Some(m.at(i, j)), "{how} ({i},{j}) of a {a}x{b} matrix: {g:?}, want {:?}", m.at(i, j));
                } else {
                    ensure!(g.is_err(), "{how} ({i},{j}) of a {a}x{b} matrix is {g:?} instead of a panic");
                }
            }
            let mut y = x.clone();
            let v = Tok::gen(r);
            let w = caught(|| {
                y[[i, j]] = v;
            });
            let mut n = m.clone();
            if inside {
                ensure!(w.is_ok(), "writing ({i},{j}) of a {a}x{b} matrix panics: {w:?}");
                n.v[i * b + j] = v;
            } else {
                ensure!(w.is_err(), "writing ({i},{j}) of a {a}x{b} matrix does not panic");
            }
            is_mat(&y, &n, &format!("{a}x{b} matrix after writing ({i},{j})"))?;
            is_mat(&x, &m, &format!("{a}x{b} matrix after reading ({i},{j})"))?;
        }
    }
    l.sample(|| format!("{a}x{b}: rows {rows:?}, columns {cols:?}"));
    l.count("matrices", 1);
    Ok(())
}

/// many writes in a row
fn history(r: &mut Rng, l: &mut Log) -> Res {
    let (a, b) = (1 + r.below(12), 1 + r.below(12));
    writes(r, l, a, b, 40)
}

/// the same on a large matrix, with probes far apart and outside
fn large(r: &mut Rng, l: &mut Log) -> Res {
    let big = [64, 100, 127, 128, 129, 200, 255, 256, 257, 300];
    let (a, b) = match r.below(6) {
        4 => r.huge_shape(),
        0 => (r.pick(&[1, 2, 3]), r.pick(&[300, 1000, 1025, 4097])),
        1 => (r.pick(&[300, 1000, 1025, 4097]), r.pick(&[1, 2, 3])),
        _ => (r.pick(&big), r.pick(&big)),
    };
    writes(r, l, a, b, 400)?;
    let m = Mm::<(usize, usize)>::new(a, b, |i, j| (i, j));
    let x = dm(&m);
    for _ in 0..300 {
        let near = |r: &mut Rng, n: usize| match r.below(4) {
            0 => r.below(n),
            1 => n - 1,
            2 => n + r.below(3),
            _ => n * (1 + r.below(3)) + r.below(n),
        };
        let (i, j) = (near(r, a), near(r, b));
        let inside = i < a && j < b;
        l.case(key_of(&("large", a, b, i, j)), true);
        l.count(if inside { "inside" } else { "outside" }, 1);
        let (g, h) = (caught(|| x[[i, j]]), caught(|| MatrixExpr::entry(&&x, i, j)));
        if inside {
            ensure!(g == Ok((i, j)) && h == Ok((i, j)), "reading ({i},{j}) of a {a}x{b} matrix gives the elements at {g:?} and {h:?}");
        } else {
            ensure!(g.is_err() && h.is_err(), "reading ({i},{j}) of a {a}x{b} matrix yields {g:?} and {h:?} instead of a panic");
            let mut y = x.clone();
            ensure!(caught(|| y[[i, j]] = (0, 0)).is_err(), "writing ({i},{j}) of a {a}x{b} matrix does not panic");
        }
    }
    l.count("large", 1);
    Ok(())
}

/// every element of a huge vector, and writes that land nowhere else
fn huge_vector(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.huge();
    let mut m: Vec<u32> = (0..n as u32).collect();
    let mut x = make_vector_expr(n, |i| i as u32).eval();
    for k in 0..40 {
        let i = match r.below(4) {
            0 => n - 1 - r.below(9.min(n)),
            1 => r.below(9.min(n)),
            _ => r.below(n),
        };
        let v = u32::MAX - k;
        x[i] = v;
        m[i] = v;
    }
    ensure!(x.len() == n, "length {} instead of {n}", x.len());
    for i in 0..n {
        ensure!(x[i] == m[i] && VectorExpr::entry(&&x, i) == m[i], "after writes, element {i} of {n} is {}, want {}", x[i], m[i]);
    }
    for _ in 0..20 {
        let i = match r.below(4) {
            0 => n + r.below(3),
            1 => n + (1 << r.below(40)),
            2 => n * 2 - r.below(n),
            _ => r.below(n).wrapping_add(1 << (16 + r.below(48))),
        };
        if i < n {
            continue;
        }
        let g = caught(|| x[i]);
        ensure!(g.is_err(), "reading element {i} of a vector of length {n} yields {g:?}");
        ensure!(caught(|| x[i] = 0).is_err(), "writing element {i} of a vector of length {n} does not panic");
    }
    ensure!((0..n).all(|i| x[i] == m[i]), "a rejected write changed a vector of length {n}");
    l.case(key_of(&("huge", n, r.u64())), true);
    l.count("huge vectors", 1);
    Ok(())
}

fn writes(r: &mut Rng, l: &mut Log, a: usize, b: usize, steps: usize) -> Res {
    let mut m = Mm::<Tok>::gen(r, a, b);
    let mut x = dm(&m);
    let mut v = gen_vec::<Tok>(r, a);
    let mut u = dv(&v);
    for _ in 0..steps {
        let (i, j) = (r.below(a), r.below(b));
        let t = Tok::gen(r);
        x[[i, j]] = t;
        m.v[i * b + j] = t;
        u[i] = t;
        v[i] = t;
        let (i, j) = (r.below(a), r.below(b));
        ensure!(x[[i, j]] == *m.at(i, j), "element ({i},{j}) of a {a}x{b} matrix: {:?}, want {:?}", x[[i, j]], m.at(i, j));
        ensure!(u[i] == v[i], "element {i} of a vector: {:?}, want {:?}", u[i], v[i]);
    }
    l.case(key_of(&(a, b, &m.v)), true);
    l.count("histories", 1);
    is_mat(&x, &m, "matrix after a history of writes")?;
    is_vec(&u, &v, "vector after a history of writes")
}

fn vector(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let m = gen_vec::<Tok>(r, n);
    let x = dv(&m);
    let rx = &x;
    let sl: &[Tok] = &m;
    for i in indices(r, n, 1) {
        let inside = i < n;
        l.case(key_of(&(n, i, &m)), true);
        l.count(if inside { "inside" } else { "outside" }, 1);
        for (how, g) in [
            ("index", caught(|| x[i])),
            ("entry", caught(|| VectorExpr::entry(&x, i))),
            ("entry by reference", caught(|| VectorExpr::entry(&rx, i))),
            ("entry of the wrapped reference", caught(|| rx.wrap().entry(i))),
            ("entry of a slice", caught(|| VectorExpr::entry(&sl, i))),
        ] {
            if inside {
                ensure!(g.as_ref().ok() == Some(&m[i]), "{how} {i} of a vector of length {n}: {g:?}, want {:?}", m[i]);
            } else {
                ensure!(g.is_err(), "{how} {i} of a vector of length {n} is {g:?} instead of a panic");
            }
        }
        let mut y = x.clone();
        let v = Tok::gen(r);
        let w = caught(|| {
            y[i] = v;
        });
        let mut k = m.clone();
        ensure!(w.is_ok() == inside, "writing {i} of a vector of length {n}: {w:?}");
        if inside {
            k[i] = v;
        }
        is_vec(&y, &k, &format!("vector of length {n} after writing {i}"))?;
        is_vec(&x, &m, &format!("vector of length {n} after reading {i}"))?;
    }
    l.count("vectors", 1);
    Ok(())
}

/// elements of other sizes: none, one byte, large, over-aligned
trait Sized_: Clone + PartialEq + std::fmt::Debug {
    const NAME: &'static str;
    fn nth(k: usize) -> Self;
}
impl Sized_ for () {
    const NAME: &'static str = "()";
    fn nth(_: usize) {}
}
impl Sized_ for u8 {
    const NAME: &'static str = "u8";
    fn nth(k: usize) -> u8 {
        k as u8
    }
}
impl Sized_ for u128 {
    const NAME: &'static str = "u128";
    fn nth(k: usize) -> u128 {
        (k as u128) << 64 | 5
    }
}
impl Sized_ for [u32; 40] {
    const NAME: &'static str = "[u32; 40]";
    fn nth(k: usize) -> Self {
        let mut x = [3; 40];
        x[k % 40] = k as u32 + 10;
        x
    }
}
impl Sized_ for String {
    const NAME: &'static str = "String";
    fn nth(k: usize) -> String {
        "x".repeat(k % 4) + &k.to_string()
    }
}
#[derive(Clone, PartialEq, Debug)]
#[repr(align(32))]
struct Aligned(u16);
impl Sized_ for Aligned {
    const NAME: &'static str = "Aligned";
    fn nth(k: usize) -> Self {
        Aligned(k as u16)
    }
}
fn sized<T: Sized_>(r: &mut Rng, l: &mut Log) -> Res {
    let (a, b) = (r.below(12), r.below(12));
    let m = Mm::<T>::new(a, b, |i, j| T::nth(i * b + j));
    let mut w = m.clone();
    let v = m.v.clone();
    let mut x = make_matrix_expr(a, b, |i, j| v[i * b + j].clone()).eval();
    let mut u = make_vector_expr(a * b, |i| v[i].clone()).eval();
    let mut s = v.clone();
    for _ in 0..30 {
        let (i, j, t) = (r.below(a + 2), r.below(b + 2), T::nth(200 + r.below(50)));
        let inside = i < a && j < b;
        let k = i * b + j;
        let g = caught(|| x[[i, j]].clone());
        let h = caught(|| u[k].clone());
        ensure!(if inside { g.as_ref() == Ok(w.at(i, j)) } else { g.is_err() }, "reading ({i},{j}) of a {a}x{b} matrix over {}: {g:?}", T::NAME);
        ensure!(if k < a * b { h.as_ref() == Ok(&s[k]) } else { h.is_err() }, "reading {k} of a vector of length {} over {}: {h:?}", a * b, T::NAME);
        let (g, h) = (caught(|| x[[i, j]] = t.clone()), caught(|| u[k] = t.clone()));
        ensure!(g.is_ok() == inside && h.is_ok() == (k < a * b), "writing ({i},{j}) of a {a}x{b} matrix and {k} of a vector over {}: {g:?}, {h:?}", T::NAME);
        if inside {
            w.v[k] = t.clone();
        }
        if k < a * b {
            s[k] = t;
        }
        l.case(key_of(&(T::NAME, a, b, i, j)), true);
        l.count(if inside { "inside" } else { "outside" }, 1);
    }
    for i in 0..a {
        for j in 0..b {
            ensure!(x[[i, j]] == *w.at(i, j), "({i},{j}) of a {a}x{b} matrix over {} after writing is {:?}", T::NAME, x[[i, j]]);
        }
    }
    ensure!(u.len() == s.len() && (0..s.len()).all(|k| u[k] == s[k]), "vector over {} after writing: {u:?}, want {s:?}", T::NAME);
    l.count("elements of other sizes", 1);
    Ok(())
}

/// nested arrays as matrix expressions
fn nested<const R: usize, const C: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let m: [[Tok; C]; R] = std::array::from_fn(|_| std::array::from_fn(|_| Tok::gen(r)));
    for i in indices(r, R, C) {
        for j in indices(r, C, R) {
            let g = caught(|| MatrixExpr::entry(&m, i, j));
            let inside = i < R && j < C;
            ensure!(if inside { g == Ok(m[i][j]) } else { g.is_err() }, "entry ({i},{j}) of a nested {R}x{C} array: {g:?}");
            l.case(key_of(&("nested", R, C, i, j)), true);
        }
    }
    Ok(())
}

fn svector<const D: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let m: [Tok; D] = std::array::from_fn(|_| Tok::gen(r));
    let x = SVector::from(m);
    for i in indices(r, D, 1) {
        let inside = i < D;
        l.case(key_of(&("s", D, i, &m)), true);
        l.count(if inside { "inside" } else { "outside" }, 1);
        let g = caught(|| x[i]);
        if inside {
            ensure!(g.as_ref().ok() == Some(&m[i]), "index {i} in dimension {D}: {g:?}, want {:?}", m[i]);
        } else {
            ensure!(g.is_err(), "index {i} in dimension {D} is {g:?} instead of a panic");
        }
        let mut y = SVector::from(m);
        let v = Tok::gen(r);
        let w = caught(|| {
            y[i] = v;
        });
        let mut k = m;
        ensure!(w.is_ok() == inside, "writing {i} in dimension {D}: {w:?}");
        if inside {
            k[i] = v;
        }
        ensure!(y.0 == k, "vector of dimension {D} after writing {i}: {y:?}, want {k:?}");
    }
    l.count("static_vectors", 1);
    Ok(())
}

fn main() {
    let run = Run::new("C18", "a case is one index pair (or index) tried for reading in every way and for writing on one container; all are non-trivial");
    for (k, n) in [("inside", 2000), ("outside", 10_000), ("outside_aliasing_flat_index", 500), ("matrices", 50), ("vectors", 50), ("static_vectors", 50), ("histories", 200), ("large", 20)] {
        run.require(k, n);
    }
    let side = 7;
    run.cases_i("all-small-shapes", run.n(1, 20) * side * side, |i, r, l| {
        matrix(r, l, (i % side) as usize, (i / side % side) as usize)
    });
    run.cases("larger-shapes", run.n(3, 60), |r, l| {
        let (a, b) = r.pick(&[(1, 17), (17, 1), (16, 16), (9, 20), (20, 9), (0, 12), (12, 0), (3, 33)]);
        matrix(r, l, a, b)
    });
    run.cases("vectors", run.n(50, 2000), |r, l| {
        let n = r.below(20);
        vector(r, l, n)
    });
    run.cases("static-vectors", run.n(20, 500), |r, l| {
        svector::<0>(r, l)?;
        svector::<1>(r, l)?;
        svector::<2>(r, l)?;
        svector::<3>(r, l)?;
        svector::<8>(r, l)?;
        svector::<33>(r, l)
    });
    run.cases("sizes", run.n(100, 5000), |r, l| match r.below(6) {
        0 => sized::<()>(r, l),
        1 => sized::<u8>(r, l),
        2 => sized::<u128>(r, l),
        3 => sized::<String>(r, l),
        4 => sized::<Aligned>(r, l),
        _ => sized::<[u32; 40]>(r, l),
    });
    run.cases("nested-arrays", run.n(1, 20), |r, l| {
        nested::<2, 3>(r, l)?;
        nested::<1, 1>(r, l)?;
        nested::<5, 2>(r, l)?;
        nested::<3, 0>(r, l)?;
        nested::<0, 3>(r, l)
    });
    run.require("elements of other sizes", 100);
    run.cases("large", run.n(2, 100), large);
    run.cases("large-vectors", run.n(1, 20), |r, l| {
        let n = r.pick(&[33, 64, 65, 127, 129, 255, 256, 257, 300]);
        vector(r, l, n)
    });
    run.require("huge vectors", 30);
    run.cases("huge-vectors", run.n(2, 60), huge_vector);
    run.cases("histories", run.n(200, 10_000), history);
    run.finish()
}
