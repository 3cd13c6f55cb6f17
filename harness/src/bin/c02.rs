//! C02: polynomial evaluation is the power sum and respects + - *.
use harness::dd::DD;
use harness::elems::*;
use harness::run::{key_of, Log, Res, Rng, Run};
use harness::{ensure, poly};
use magnesia::algebra::{Complex, Polynomial, Ring};
use magnesia::linalg::SMatrix;

type P<T> = Polynomial<T>;

fn check<T: El + Ring>(l: &mut Log, a: &[T], b: &[T], x: &T) -> Res {
    l.case(key_of(&(T::NAME, a, x)), a.len() >= 2);
    l.count(&format!("evals_{}", T::NAME), 1);
    l.max("len", a.len() as u64);
    l.sample(|| format!("{}: coefficients {a:?} at {x:?}", T::NAME));
    let p = P::from_coefficients(a.to_vec());
    let want = poly::eval(a, x);
    let x0 = x.clone();
    let got = p.eval_ref(x);
    ensure!(got.same(&want), "{}: p={a:?} x={x:?}: eval_ref gives {got:?}, want {want:?}", T::NAME);
    let got = p.eval(x.clone());
    ensure!(got.same(&want), "{}: p={a:?} x={x:?}: eval gives {got:?}, want {want:?}", T::NAME);
    ensure!(*x == x0, "{}: p={a:?}: argument changed from {x0:?} to {x:?}", T::NAME);
    ensure!(
        p == P::from_coefficients(a.to_vec()),
        "{}: p={a:?}: evaluating at {x:?} changed the polynomial to {p:?}",
        T::NAME
    );
    let got = p.eval_ref(x);
    ensure!(got.same(&want), "{}: p={a:?} x={x:?}: second eval_ref gives {got:?}, want {want:?}", T::NAME);
    // homomorphism
    let q = P::from_coefficients(b.to_vec());
    let (u, v) = (poly::eval(a, x), poly::eval(b, x));
    let pairs = [
        ("+", p.clone() + q.clone(), u.m_add(&v)),
        ("-", p.clone() - q.clone(), u.m_sub(&v)),
        ("neg", -p.clone(), u.m_neg()),
    ];
    for (op, r, w) in pairs {
        let g = r.eval_ref(x);
        ensure!(g.same(&w), "{}: a={a:?} b={b:?} x={x:?}: (a {op} b)(x) = {g:?}, values give {w:?}", T::NAME);
    }
    if T::COMMUTES && a.len() * b.len() < 4000 {
        l.count("products", 1);
        let (g, w) = ((&p * &q).eval_ref(x), u.m_mul(&v));
        ensure!(g.same(&w), "{}: a={a:?} b={b:?} x={x:?}: (a*b)(x) = {g:?}, values give {w:?}", T::NAME);
    }
    Ok(())
}

fn float<T: harness::dd::Fl + Ring>(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.below(31);
    let e = r.range(-6, 6) as i32;
    let a: Vec<T> = (0..n)
        .map(|_| T::from64(if r.chance(1, 6) { 0.0 } else { (r.unit() - 0.5) * 2f64.powi(r.range(-8, 8) as i32) }))
        .collect();
    let mut x = T::from64((r.unit() - 0.5) * 2f64.powi(if T::NAME == "f32" { e / 2 } else { e }));
    match r.below(12) {
        0 => x = T::from64(1.0),
        1 => x = T::from64(-1.0),
        2 => x = T::from64(0.0),
        3 => x = T::from64(-0.0),
        _ => {}
    }
    l.case(key_of(&(T::NAME, &a, x)), n >= 2);
    l.count(&format!("float_{}", T::NAME), 1);
    l.sample(|| format!("{}: coefficients {a:?} at {x:?}", T::NAME));
    let (mut sum, mut mag, mut pow) = (DD::ZERO, 0f64, DD::ONE);
    for c in &a {
        let t = DD::from(c.to64()) * pow;
        sum = sum + t;
        mag += t.f().abs();
        pow = pow * DD::from(x.to64());
    }
    let p = P::from_coefficients(a.clone());
    let tol = (4.0 * n as f64 + 4.0) * T::EPS * mag + 64.0 * T::MIN_POS;
    for (name, g) in [("eval_ref", p.eval_ref(&x)), ("eval", p.eval(x))] {
        let err = (DD::from(g.to64()) - sum).f().abs();
        ensure!(err <= tol, "{}: p={a:?} x={x:?}: {name} gives {g:?}, exact {}, error {err:e} > {tol:e}", T::NAME, sum.f());
    }
    Ok(())
}

fn main() {
    let run = Run::new(
        "C02",
        "a case is a coefficient list and an argument over one ring, evaluated in all forms; \
         non-trivial if there are at least two coefficients",
    );
    run.require("products", 2000);
    run.require("evals_Nc", 1000);
    run.require("float_f32", 2000);
    run.require("float_f64", 2000);
    run.cases_i("lengths-zp", run.n(130 * 20, 600 * 60), |i, r, l| {
        let n = i as usize % (if run.thorough { 600 } else { 130 });
        let a = gen_vec::<Zp>(r, n);
        let b = { let n = r.below(12); gen_vec::<Zp>(r, n) };
        check(l, &a, &b, &Zp::gen(r))
    });
    run.cases_i("lengths-nc", run.n(70 * 30, 130 * 300), |i, r, l| {
        let n = i as usize % (if run.thorough { 130 } else { 70 });
        let a = gen_vec::<Nc>(r, n);
        let b = { let n = r.below(12); gen_vec::<Nc>(r, n) };
        check(l, &a, &b, &Nc::gen(r))
    });
    run.cases_i("symbolic", run.n(9 * 60, 12 * 1000), |i, r, l| {
        let n = i as usize % (if run.thorough { 12 } else { 9 });
        let a = gen_vec::<Free>(r, n);
        let b = { let n = r.below(6); gen_vec::<Free>(r, n) };
        check(l, &a, &b, &Free::sym(0x7fff))
    });
    run.cases("complex", run.n(6000, 200_000), |r, l| {
        let (n, m) = (r.size(70), r.size(20));
        let (a, b) = (gen_vec::<Complex<Zp>>(r, n), gen_vec::<Complex<Zp>>(r, m));
        check(l, &a, &b, &Complex::gen(r))
    });
    run.cases("complex-nc", run.n(1500, 40_000), |r, l| {
        let (n, m) = (r.size(30), r.size(9));
        let (a, b) = (gen_vec::<Complex<Nc>>(r, n), gen_vec::<Complex<Nc>>(r, m));
        check(l, &a, &b, &Complex::gen(r))
    });
    run.cases("long", run.n(60, 2000), |r, l| {
        let n = r.below(5000);
        let a = gen_vec::<Zp>(r, n);
        check(l, &a, &[Zp(1), Zp(2)], &Zp::gen(r))
    });
    run.cases("huge", run.n(6, 150), |r, l| {
        let n = r.huge();
        let a = gen_vec::<Zp>(r, n);
        check(l, &a, &[Zp(1), Zp(2)], &Zp::gen(r))?;
        let a = gen_vec::<Nc>(r, n);
        check(l, &a, &[Nc::m_int(1)], &Nc::gen(r))
    });
    run.cases("i64", run.n(3000, 100_000), |r, l| {
        // small arguments: everything stays exact
        let n = r.below(12);
        let a: Vec<i64> = (0..n).map(|_| r.range(-9, 9)).collect();
        let b: Vec<i64> = (0..r.below(6)).map(|_| r.range(-9, 9)).collect();
        check(l, &a, &b, &r.range(-7, 7))
    });
    // narrow types right up to the edge: evaluation by Horner's rule or by powers stays
    // inside the type when all partial sums are (x in {-1, 0, 1})
    run.cases("i8-edge", run.n(2000, 50_000), |r, l| {
        let n = r.below(6);
        let a: Vec<i8> = (0..n).map(|_| r.range(-25, 25) as i8).collect();
        let x = r.range(-1, 1) as i8;
        l.case(key_of(&("i8", &a, x)), n >= 2);
        let want: i64 = a.iter().enumerate().map(|(i, c)| *c as i64 * (x as i64).pow(i as u32)).sum();
        if (-128..128).contains(&want) {
            let g = P::from_coefficients(a.clone()).eval(x);
            ensure!(g as i64 == want, "i8: p={a:?} x={x}: {g}, want {want}");
        }
        Ok(())
    });
    run.cases("float-f32", run.n(20_000, 1_000_000), float::<f32>);
    run.cases("float-f64", run.n(20_000, 1_000_000), float::<f64>);
    run.cases("smatrix", run.n(1500, 30_000), |r, l| {
        // polynomials over the library's own matrices, against the independent 2x2 model
        let n = r.size(20);
        let a = gen_vec::<Nc>(r, n);
        let x = Nc::gen(r);
        let m = |v: &Nc| SMatrix::from([[v.0[0], v.0[1]], [v.0[2], v.0[3]]]);
        l.case(key_of(&("SMatrix", &a, &x)), n >= 2);
        let p = P::from_coefficients(a.iter().map(m).collect());
        let w = m(&poly::eval(&a, &x));
        let xm = m(&x);
        ensure!(p.eval_ref(&xm) == w && p.eval(xm) == w, "SMatrix: p={a:?} x={x:?}: got {:?}", p.eval(xm));
        Ok(())
    });
    run.cases("bivariate", run.n(1500, 30_000), |r, l| {
        // p in Zp[y][x] evaluated at a polynomial of y
        let n = r.below(7);
        let a: Vec<Vec<Zp>> = (0..n).map(|_| { let m = r.below(5); gen_vec::<Zp>(r, m) }).collect();
        let xq = { let m = r.below(5); gen_vec::<Zp>(r, m) };
        let y = Zp::gen(r);
        l.case(key_of(&("bivariate", &a, &xq)), n >= 2);
        l.count("bivariate", 1);
        let p = P::from_coefficients(a.iter().map(|c| P::from_coefficients(c.clone())).collect());
        let at = p.eval(P::from_coefficients(xq.clone()));
        let g = at.eval(y);
        let vals: Vec<Zp> = a.iter().map(|c| poly::eval(c, &y)).collect();
        let w = poly::eval(&vals, &poly::eval(&xq, &y));
        ensure!(g == w, "Zp[y][x]: p={a:?} x={xq:?} y={y:?}: {g:?}, want {w:?}");
        Ok(())
    });
    run.finish()
}
