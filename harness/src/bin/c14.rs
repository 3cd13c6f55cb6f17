//! C14: the product of dynamically sized matrices.
use harness::dd::{two_prod, DD};
use harness::elems::*;
use harness::ensure;
use harness::expr::{dm, is_mat};
use harness::mm::Mm;
use harness::run::{caught, key_of, Log, Res, Rng, Run};
use magnesia::algebra::Complex;
use magnesia::linalg::{DMatrix, MatrixExpr};

fn lazy<T: El, E: MatrixExpr<Entry = T>>(r: &mut Rng, p: &E, w: &Mm<T>, d: &str) -> Res {
    ensure!(
        p.num_rows() == w.r && p.num_cols() == w.c,
        "{d}: shape {}x{}, want {}x{}", p.num_rows(), p.num_cols(), w.r, w.c
    );
    if w.r * w.c > 0 {
        for _ in 0..(w.r * w.c).min(8) {
            let (i, j) = (r.below(w.r), r.below(w.c));
            let g = p.entry(i, j);
            ensure!(g.same(w.at(i, j)), "{d}: entry({i},{j}) = {g:?}, want {:?}", w.at(i, j));
        }
    }
    Ok(())
}

fn one<T: LibEl>(r: &mut Rng, l: &mut Log, m: usize, k: usize, n: usize) -> Res {
    let a = Mm::<T>::gen(r, m, k);
    let b = Mm { r: k, c: n, v: gen_related::<T>(r, &a.v, k * n) };
    l.case(key_of(&(T::NAME, &a, &b)), m * k * n >= 2);
    l.count(T::NAME, 1);
    l.count("products", 1);
    if k == 0 {
        l.count("inner_dimension_0", 1);
    }
    l.max("dimension", m.max(k).max(n) as u64);
    l.sample(|| format!("{} {m}x{k}x{n}: a={:?} b={:?}", T::NAME, a.v, b.v));
    let (x, y) = (dm(&a), dm(&b));
    let w = a.mul(&b);
    let d = if m * k + k * n <= 64 {
        format!("a*b over {}: {m}x{k} * {k}x{n}: a={:?} b={:?}", T::NAME, a.v, b.v)
    } else {
        format!("a*b over {}: {m}x{k} * {k}x{n}", T::NAME)
    };
    let p = &x * &y;
    lazy(r, &p, &w, &d)?;
    is_mat(&p.eval(), &w, &d)?;
    is_mat(&(&x * &y).wrap().eval(), &w, &d)?;
    is_mat(&(&x * &y).wrap().t().eval(), &w.t(), &format!("transpose of {d}"))?;
    // inside a larger expression
    let s = dm(&w);
    is_mat(&((&x * &y).wrap() + &s).eval(), &w.zip(&w, T::m_add), &format!("(a*b)+c, {d}"))?;
    is_mat(&(s.wrap() - (&x * &y)).eval(), &Mm::zeros(m, n), &format!("c-(a*b), {d}"))?;
    is_mat(&x, &a, &format!("left factor after {d}"))?;
    is_mat(&y, &b, &format!("right factor after {d}"))
}

fn same_object<T: LibEl>(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let a = Mm::<T>::gen(r, n, n);
    l.case(key_of(&("sq", T::NAME, &a)), n >= 2);
    l.count("same_object", 1);
    let x = dm(&a);
    let d = format!("a*a over {} {n}x{n}", T::NAME);
    is_mat(&(&x * &x).eval(), &a.mul(&a), &d)?;
    is_mat(&x, &a, &format!("operand after {d}"))
}

fn eq<T: El>(law: &str, x: &DMatrix<T>, y: &DMatrix<T>) -> Res {
    let shape = (x.num_rows(), x.num_cols()) == (y.num_rows(), y.num_cols());
    ensure!(shape && x == y, "{law} over {}: {x:?} vs {y:?}", T::NAME);
    Ok(())
}

fn laws<T: LibEl>(r: &mut Rng, l: &mut Log, max: usize) -> Res {
    let [m, k, n, q] = [0; 4].map(|_| 1 + r.below(max));
    let (a, b, c) = (Mm::<T>::gen(r, m, k), Mm::<T>::gen(r, k, n), Mm::<T>::gen(r, n, q));
    l.case(key_of(&("laws", T::NAME, &a, &b, &c)), m * k * n * q >= 2);
    l.count("laws", 1);
    let (a, b, c) = (dm(&a), dm(&b), dm(&c));
    let ab = (&a * &b).eval();
    let bc = (&b * &c).eval();
    eq("(ab)c == a(bc)", &(&ab * &c).eval(), &(&a * &bc).eval())?;
    let i = DMatrix::<T>::eye(m).eval();
    eq("1a == a", &(&i * &a).eval(), &a)?;
    let i = DMatrix::<T>::eye(k).eval();
    eq("a1 == a", &(&a * &i).eval(), &a)?;
    let b2 = dm(&Mm::<T>::gen(r, k, n));
    eq("a(b+b') == ab+ab'", &(&a * &(&b + &b2).eval()).eval(), &(&ab + (&a * &b2)).eval())?;
    let a2 = dm(&Mm::<T>::gen(r, m, k));
    eq("(a-a')b == ab-a'b", &(&(&a - &a2).eval() * &b).eval(), &(&ab - (&a2 * &b)).eval())?;
    if T::COMMUTES {
        eq("(ab)^T == b^T a^T", &ab.t().eval(), &(&b.t().eval() * &a.t().eval()).eval())?;
        eq("(ab)^H == b^H a^H", &ab.h().eval(), &(&b.h().eval() * &a.h().eval()).eval())?;
        l.count("transposition_laws", 1);
    }
    Ok(())
}

fn float(r: &mut Rng, l: &mut Log, m: usize, k: usize, n: usize) -> Res {
    let f = |r: &mut Rng| (r.unit() - 0.5) * 2f64.powi(r.range(-10, 10) as i32);
    let a = Mm { r: m, c: k, v: (0..m * k).map(|_| f(r)).collect() };
    let b = Mm { r: k, c: n, v: (0..k * n).map(|_| f(r)).collect() };
    l.case(key_of(&("f64", m, k, n, &a)), m * k * n >= 2);
    l.count("float_products", 1);
    let p = (&dm(&a) * &dm(&b)).eval();
    for i in 0..m {
        for j in 0..n {
            let (mut s, mut t) = (DD::ZERO, 0.0);
            for q in 0..k {
                s = s + two_prod(*a.at(i, q), *b.at(q, j));
                t += (a.at(i, q) * b.at(q, j)).abs();
            }
            let e = (DD::from(p[[i, j]]) - s).f().abs();
            ensure!(
                e <= (k as f64 + 2.0) * f64::EPSILON * t,
                "a*b over f64 {m}x{k}x{n}: entry ({i},{j}) = {:e}, exact {:e}", p[[i, j]], s.f()
            );
        }
    }
    Ok(())
}

fn any(r: &mut Rng, l: &mut Log, m: usize, k: usize, n: usize) -> Res {
    match r.below(6) {
        0 => one::<Zp>(r, l, m, k, n),
        1 => one::<Nc>(r, l, m, k, n),
        2 => one::<Complex<Zp>>(r, l, m, k, n),
        3 if m * k * n <= 400 => one::<Free>(r, l, m, k, n),
        3 => one::<Complex<Nc>>(r, l, m, k, n),
        4 => one::<i64>(r, l, m, k, n),
        _ => float(r, l, m, k, n),
    }
}

fn main() {
    let run = Run::new(
        "C14",
        "a case is a pair of matrices over one ring (or a triple for the laws); non-trivial if the product sums at least two terms in total",
    );
    for k in ["Zp", "Nc", "Free", "i64", "laws", "same_object", "float_products", "transposition_laws"] {
        run.require(k, 300);
    }
    run.require("inner_dimension_0", 20);
    // all shapes up to 7 in each dimension; empty inner dimension only where there is no entry
    let mut shapes = vec![];
    for m in 0..8 {
        for k in 0..8 {
            for n in 0..8 {
                if k > 0 || m * n == 0 {
                    shapes.push((m, k, n));
                }
            }
        }
    }
    let rounds = run.n(2, 150);
    run.cases_i("all-shapes-to-7", rounds * shapes.len() as u64, |i, r, l| {
        let (m, k, n) = shapes[i as usize % shapes.len()];
        any(r, l, m, k, n)
    });
    run.cases("mixed-shapes", run.n(200, 10_000), |r, l| {
        let [m, k, n] = [0; 3].map(|_| if r.chance(1, 3) { 1 + r.below(3) } else { 1 + r.below(24) });
        any(r, l, m, k, n)
    });
    run.cases("blocking-boundaries", run.n(20, 600), |r, l| {
        let big = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257];
        let mut d = [1 + r.below(4), 1 + r.below(4), 1 + r.below(4)];
        // every length up to 300 occurs, and the neighbourhoods of powers of two often
        let q = if r.chance(1, 2) { 1 } else { r.below(3) };
        d[q] = match r.below(3) {
            0 => r.pick(&big),
            1 => (1usize << (2 + r.below(7))) + r.below(5) - 2,
            _ => 1 + r.below(300),
        };
        if r.chance(1, 3) {
            d[r.below(3)] = r.pick(&big[..9]);
        }
        any(r, l, d[0], d[1], d[2])
    });
    run.require("huge", 20);
    run.cases("huge-dimensions", run.n(1, 40), |r, l| {
        let mut d = [1 + r.below(3), 1 + r.below(3), 1 + r.below(3)];
        d[r.below(3)] = r.huge();
        l.count("huge", 1);
        match r.below(3) {
            0 => one::<Zp>(r, l, d[0], d[1], d[2]),
            1 => one::<i64>(r, l, d[0], d[1], d[2]),
            _ => one::<Nc>(r, l, d[0], d[1], d[2]),
        }
    });
    run.cases("large", run.n(1, 30), |r, l| {
        let d = r.pick(&[32, 48, 64, 65, 100]);
        let (m, k, n) = (d, r.pick(&[33, 64, 70]), d - r.below(3));
        match r.below(2) {
            0 => one::<Zp>(r, l, m, k, n),
            _ => one::<Nc>(r, l, m, k, n),
        }
    });
    run.cases("same-object", run.n(100, 5000), |r, l| {
        let n = r.below(9);
        let n = if n == 0 { 1 } else { n };
        match r.below(3) {
            0 => same_object::<Nc>(r, l, n),
            1 => same_object::<Free>(r, l, n.min(4)),
            _ => same_object::<Complex<Zp>>(r, l, n),
        }
    });
    run.cases("laws", run.n(300, 20_000), |r, l| {
        let max = if r.chance(1, 10) { 20 } else { 6 };
        match r.below(4) {
            0 => laws::<Zp>(r, l, max),
            1 => laws::<Nc>(r, l, max),
            2 => laws::<Complex<Zp>>(r, l, max),
            _ => laws::<Free>(r, l, 3),
        }
    });
    // m x 0 times 0 x n has mn entries, all of them the empty sum
    let probes = [(1, 1), (1, 2), (2, 1), (2, 3), (4, 4)];
    run.cases_i("empty-inner-dimension", probes.len() as u64, |i, _, l| {
        let (m, n) = probes[i as usize];
        l.case(key_of(&("k0", m, n)), false);
        let (x, y) = (dm(&Mm::<Zp>::zeros(m, 0)), dm(&Mm::<Zp>::zeros(0, n)));
        match caught(|| (&x * &y).eval()) {
            Err(p) => l.finding(&format!("k0-{m}x{n}"), format!("{m}x0 times 0x{n} gives no value instead of zeros: {p}")),
            Ok(v) => is_mat(&v, &Mm::zeros(m, n), &format!("{m}x0 * 0x{n}"))?,
        }
        Ok(())
    });
    run.finish()
}
