//! C10: statically sized vectors, all operator forms, many dimensions and element types.
use harness::elems::*;
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Zero};
use magnesia::linalg::SVector;
use std::array::from_fn;

fn arr<T: El, const D: usize>(v: &[T]) -> SVector<T, D> {
    SVector::from(from_fn(|i| v[i].clone()))
}

fn same<T: El, const D: usize>(op: &str, g: &SVector<T, D>, w: &[T], a: &[T], b: &[T]) -> Res {
    ensure!(
        same_all(&g.0, w),
        "{op} over {} in dimension {D}: a={a:?} b={b:?}: got {g:?}, want {w:?}",
        T::NAME
    );
    Ok(())
}

/// Component-wise operations: exact for every element type, also Tok and IEEE specials.
fn elementwise<T: LibEl, const D: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let a = gen_vec::<T>(r, D);
    let b = gen_related::<T>(r, &a, D);
    let s = T::gen(r);
    l.case(key_of(&(T::NAME, D, &a, &b)), D >= 2 && a != b);
    l.count(T::NAME, 1);
    l.count(&format!("dim{D}"), 1);
    l.sample(|| format!("{} dimension {D}: a={a:?} b={b:?} s={s:?}", T::NAME));
    let v = || arr::<T, D>(&a);
    let w = || arr::<T, D>(&b);
    let zip = |f: fn(&T, &T) -> T| -> Vec<T> { a.iter().zip(&b).map(|(x, y)| f(x, y)).collect() };
    let rb = w();
    let ra = v();
    let m = zip(T::m_add);
    same("a + b", &(v() + w()), &m, &a, &b)?;
    same("a + &b", &(v() + &rb), &m, &a, &b)?;
    let mut t = v();
    t += w();
    same("a += b", &t, &m, &a, &b)?;
    let mut t = v();
    t += &rb;
    same("a += &b", &t, &m, &a, &b)?;
    let m = zip(T::m_sub);
    same("a - b", &(v() - w()), &m, &a, &b)?;
    same("a - &b", &(v() - &rb), &m, &a, &b)?;
    let mut t = v();
    t -= w();
    same("a -= b", &t, &m, &a, &b)?;
    let mut t = v();
    t -= &rb;
    same("a -= &b", &t, &m, &a, &b)?;
    let m: Vec<T> = a.iter().map(|x| x.m_mul(&s)).collect();
    same("a * s", &(v() * s.clone()), &m, &a, &b)?;
    same("a * &s", &(v() * &s), &m, &a, &b)?;
    let mut t = v();
    t *= s.clone();
    same("a *= s", &t, &m, &a, &b)?;
    let mut t = v();
    t *= &s;
    same("a *= &s", &t, &m, &a, &b)?;
    same("zero", &SVector::<T, D>::zero(), &vec![T::m_zero(); D], &a, &b)?;
    // several operations in a row on one object
    let mut t = v();
    t += &rb;
    t -= &ra;
    t *= &s;
    t -= w();
    let m: Vec<T> =
        a.iter().zip(&b).map(|(x, y)| x.m_add(y).m_sub(x).m_mul(&s).m_sub(y)).collect();
    same("((a += b) -= a) *= s) -= b", &t, &m, &a, &b)?;
    same("operand b afterwards", &rb, &b, &a, &b)?;
    same("operand a afterwards", &ra, &a, &a, &b)?;
    // iteration
    let it: Vec<T> = v().into_iter().collect();
    ensure!(same_all(&it, &a), "into_iter over {} in dimension {D}: {it:?}, want {a:?}", T::NAME);
    let it: Vec<T> = (&ra).into_iter().cloned().collect();
    ensure!(same_all(&it, &a), "iter over {} in dimension {D}: {it:?}, want {a:?}", T::NAME);
    let mut back: Vec<T> = (&ra).into_iter().rev().cloned().collect();
    back.reverse();
    ensure!(same_all(&back, &a), "reverse iteration over {} in dimension {D}: {back:?}", T::NAME);
    let mut t = v();
    let mut n = 0;
    for (x, y) in (&mut t).into_iter().zip(&b) {
        *x = y.clone();
        n += 1;
    }
    ensure!(n == D, "iter_mut over {} visits {n} of {D} components", T::NAME);
    same("assignment through iter_mut", &t, &b, &a, &b)?;
    ensure!(v().into_iter().len() == D && (&ra).into_iter().count() == D, "iterator length in dimension {D}");
    // indexing: read each, write one
    for (i, x) in a.iter().enumerate() {
        ensure!(ra[i].same(x), "a[{i}] over {} in dimension {D}: {:?}, want {x:?}", T::NAME, ra[i]);
    }
    if D > 0 {
        let i = match r.below(3) {
            0 => D - 1,
            1 => 0,
            _ => r.below(D),
        };
        let mut t = v();
        t[i] = s.clone();
        let mut m = a.clone();
        m[i] = s.clone();
        same(&format!("a[{i}] = s"), &t, &m, &a, &b)?;
    }
    // equality is component-wise
    let want = a.iter().zip(&b).all(|(x, y)| x == y);
    ensure!((v() == w()) == want, "== over {} in dimension {D}: a={a:?} b={b:?}", T::NAME);
    Ok(())
}

/// Dot product over an exact ring.
fn dot<T: LibEl, const D: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let a = gen_vec::<T>(r, D);
    let b = gen_related::<T>(r, &a, D);
    l.case(key_of(&("dot", T::NAME, D, &a, &b)), D >= 2 && a != b);
    l.count("dot", 1);
    let w = a.iter().zip(&b).fold(T::m_zero(), |s, (x, y)| s.m_add(&x.m_mul(y)));
    let rb = arr::<T, D>(&b);
    let g = arr::<T, D>(&a) * arr::<T, D>(&b);
    let h = arr::<T, D>(&a) * &rb;
    ensure!(
        g.same(&w) && h.same(&w),
        "dot product over {} in dimension {D}: a={a:?} b={b:?}: got {g:?} / {h:?}, want {w:?}",
        T::NAME
    );
    same("operand b of the dot product", &rb, &b, &a, &b)
}

fn dot_float<const D: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let f = |r: &mut Rng| (r.unit() - 0.5) * 2f64.powi(r.range(-20, 20) as i32);
    let a: Vec<f64> = (0..D).map(|_| f(r)).collect();
    let b: Vec<f64> = (0..D).map(|_| f(r)).collect();
    l.case(key_of(&("dotf", D, &a)), D >= 2);
    let (mut s, mut m) = (harness::dd::DD::ZERO, 0.0);
    for (x, y) in a.iter().zip(&b) {
        s = s + harness::dd::two_prod(*x, *y);
        m += (x * y).abs();
    }
    for g in [arr::<f64, D>(&a) * arr::<f64, D>(&b), arr::<f64, D>(&a) * &arr::<f64, D>(&b)] {
        let e = (harness::dd::DD::from(g) - s).f().abs();
        ensure!(
            e <= (D as f64 + 2.0) * f64::EPSILON * m,
            "dot product over f64 in dimension {D}: a={a:?} b={b:?}: got {g:e}, exact {:e}", s.f()
        );
    }
    Ok(())
}

fn full<const D: usize>(run: &Run, q: u64, t: u64) {
    let n = run.n(q, t);
    run.cases(&format!("dim{D}"), n, |r, l| {
        match r.below(7) {
            0 => elementwise::<Zp, D>(r, l)?,
            1 => elementwise::<Nc, D>(r, l)?,
            2 => elementwise::<Tok, D>(r, l)?,
            3 => elementwise::<f64, D>(r, l)?,
            4 => elementwise::<i64, D>(r, l)?,
            5 => elementwise::<Complex<Zp>, D>(r, l)?,
            _ => elementwise::<Free, D>(r, l)?,
        }
        match r.below(6) {
            0 => dot::<Zp, D>(r, l),
            1 => dot::<Nc, D>(r, l),
            2 => dot::<Complex<Zp>, D>(r, l),
            3 => dot::<Free, D>(r, l),
            4 => dot::<i64, D>(r, l),
            _ => dot_float::<D>(r, l),
        }
    });
}

/// Fewer element types (they cost compile time), same operations.
fn lite<const D: usize>(run: &Run, q: u64, t: u64) {
    let n = run.n(q, t);
    run.cases(&format!("dim{D}"), n, |r, l| {
        match r.below(3) {
            0 => elementwise::<Nc, D>(r, l)?,
            1 => elementwise::<Tok, D>(r, l)?,
            _ => elementwise::<f64, D>(r, l)?,
        }
        match r.below(2) {
            0 => dot::<Nc, D>(r, l),
            _ => dot_float::<D>(r, l),
        }
    });
}

fn main() {
    let run = Run::new(
        "C10",
        "a case is a pair of vectors of one dimension and element type with every form of every operation; \
         non-trivial if the dimension is at least 2 and the operands differ",
    );
    for (k, n) in [("Zp", 200), ("Nc", 500), ("Tok", 500), ("f64", 500), ("i64", 200), ("Free", 200), ("dot", 2000)] {
        run.require(k, n);
    }
    macro_rules! dims { ($f:ident, $q:expr, $t:expr; $($d:literal)*) => {$( $f::<$d>(&run, $q, $t); )*} }
    dims!(full, 150, 15000; 0 1 2 3 4 5 7 16);
    dims!(lite, 60, 6000; 6 8 9 10 11 12 13 14 15 17 18 19 20);
    dims!(lite, 30, 1500; 31 32 33 63 64 65);
    dims!(lite, 10, 300; 100 128 129 255 257 300);
    dims!(lite, 2, 20; 511 513 1000 1024 4097);
    run.cases("sizes", run.n(100, 5000), |r, l| {
        elementwise::<Bytes<0>, 5>(r, l)?;
        elementwise::<Bytes<3>, 6>(r, l)?;
        elementwise::<Bytes<24>, 3>(r, l)?;
        elementwise::<Boxed, 4>(r, l)
    });
    run.finish()
}
