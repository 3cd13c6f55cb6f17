//! C05: complex division inverts multiplication (exact field) and is accurate (floats).
use harness::dd::{Fl, CD};
use harness::elems::*;
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, DivRefs, Field};
use std::ops::*;

type C<T> = Complex<T>;

fn exact(r: &mut Rng, l: &mut Log) -> Res {
    let a = C::<Zp>::gen(r);
    let mut b = match r.below(8) {
        0 => a,
        1 => a.m_conj(),
        2 => C::new(a.im, a.re),
        _ => C::gen(r),
    };
    if b == C::m_int(0) {
        b = C::m_int(1);
    }
    let (a, b) = (a, b);
    l.case(key_of(&(&a, &b)), a != b && a != C::m_int(0));
    l.count("exact", 1);
    l.sample(|| format!("Zp: {a:?} / {b:?}"));
    // independent quotient: a * conj(b) * (b re^2 + b im^2)^-1
    let n = b.re.m_mul(&b.re).m_add(&b.im.m_mul(&b.im)).inv();
    let t = a.m_mul(&b.m_conj());
    let q = C::new(t.re.m_mul(&n), t.im.m_mul(&n));
    if q.m_mul(&b) != a {
        harness::run::harness_error("division model is inconsistent");
    }
    for (f, g) in [("a / b", a / b), ("&a / &b", &a / &b), ("a.div_refs(&b)", a.div_refs(&b))] {
        ensure!(g == q, "{f} over Zp: a={a:?} b={b:?}: got {g:?}, want {q:?}");
        ensure!(g * b == a && b * g == a, "({f}) * b != a over Zp: a={a:?} b={b:?}");
    }
    let p = a.m_mul(&b);
    for (f, g) in [("(a*b) / b", (a * b) / b), ("&(a*b) / &b", &(a * b) / &b), ("p.div_refs", p.div_refs(&b))] {
        ensure!(g == a, "{f} over Zp: a={a:?} b={b:?}: got {g:?}");
    }
    ensure!(&b / &b == C::m_int(1) && b / b == C::m_int(1), "b / b over Zp: b={b:?}: {:?}", b / b);
    // scalars
    for s in [b.re, b.im, a.re] {
        if s.0 != 0 {
            l.count("scalar", 1);
            let w = C::new(a.re.m_mul(&s.inv()), a.im.m_mul(&s.inv()));
            for (f, g) in [("a / s", a / s), ("a / &s", a / &s), ("&a / &s", &a / &s)] {
                ensure!(g == w, "{f} over Zp: a={a:?} s={s:?}: got {g:?}, want {w:?}");
            }
        }
    }
    Ok(())
}

fn nested(r: &mut Rng, l: &mut Log) -> Res {
    // Complex<Complex<Zp>>: division is defined where re^2 + im^2 is invertible
    let a = C::<C<Zp>>::gen(r);
    let b = C::<C<Zp>>::gen(r);
    let n = b.re.m_mul(&b.re).m_add(&b.im.m_mul(&b.im));
    if n == C::m_int(0) {
        return Ok(());
    }
    l.case(key_of(&(&a, &b)), true);
    l.count("nested", 1);
    for (f, g) in [("a / b", a / b), ("&a / &b", &a / &b)] {
        ensure!(g.m_mul(&b) == a, "{f} over Complex<Zp>: a={a:?} b={b:?}: got {g:?}");
    }
    Ok(())
}

fn eval_float<T>(a: (f64, f64), b: (f64, f64)) -> Vec<(&'static str, C<T>)>
where
    T: Fl + Field,
{
    let z = |p: (f64, f64)| C::new(T::from64(p.0), T::from64(p.1));
    vec![
        ("a / b", z(a) / z(b)),
        ("&a / &b", &z(a) / &z(b)),
        ("a.div_refs(&b)", z(a).div_refs(&z(b))),
    ]
}

/// error in units of eps * |quotient|
fn err<T: Fl>(g: &C<T>, a: (f64, f64), b: (f64, f64)) -> (f64, CD) {
    let q = CD::new(a.0, a.1).div(CD::new(b.0, b.1));
    let d = CD::new(g.re.to64(), g.im.to64()).sub(q).abs().f();
    let e = d / (T::EPS * q.abs().f());
    (if d.is_nan() { f64::INFINITY } else if d == 0.0 { 0.0 } else { e }, q)
}

const TOL: f64 = 16.0;

fn float<T>(r: &mut Rng, l: &mut Log) -> Res
where
    T: Fl + Field + Div<Output = T> + for<'x> Div<&'x T, Output = T>,
    for<'x, 'y> &'x T: Div<&'y T, Output = T>,
{
    let lim = (T::MAX_EXP / 2 - 12) as i64;
    let comp = |r: &mut Rng, e: i64| -> f64 {
        let x = match r.below(10) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0 - T::EPS * r.range(0, 3) as f64,
            _ => (r.unit() - 0.5) * 2.0,
        };
        let e = if r.chance(1, 5) { e - r.range(0, 30) } else { e };
        T::from64(x * 2f64.powi(e as i32)).to64()
    };
    let wide = r.chance(1, 3);
    let ex = |r: &mut Rng| if wide { r.range(-lim, lim) } else { r.range(-12, 12) };
    let (ea, eb) = (ex(r), ex(r));
    let a = (comp(r, ea), comp(r, ea));
    let b = match r.below(10) {
        0 => a,
        1 => (a.1, a.0),
        2 => (a.0, -a.1),
        _ => (comp(r, eb), comp(r, eb)),
    };
    // stay where every squared magnitude and product magnitude is normal
    let na = a.0.hypot(a.1);
    let nb = b.0.hypot(b.1);
    let ok = |x: f64| x > T::MIN_POS * 1024.0 && x < T::MAX / 1024.0;
    if !(ok(nb * nb) && (na == 0.0 || ok(na * nb) && ok(na / nb)) && ok(1.0 / (nb * nb))) {
        l.count("skipped_range", 1);
        return Ok(());
    }
    // products of single components may underflow only if negligible
    l.case(key_of(&(T::NAME, a, b)), a != b && na > 0.0);
    l.count(&format!("float_{}", T::NAME), 1);
    l.sample(|| format!("{}: ({:e},{:e}) / ({:e},{:e})", T::NAME, a.0, a.1, b.0, b.1));
    for (f, g) in eval_float::<T>(a, b) {
        if na == 0.0 {
            ensure!(g.re.to64() == 0.0 && g.im.to64() == 0.0, "{f} over {}: 0 / {b:?} = {g:?}", T::NAME);
            continue;
        }
        let (e, q) = err(&g, a, b);
        l.max("err_ulp_x100", (e * 100.0) as u64);
        ensure!(
            e <= TOL,
            "{f} over {}: a={a:?} b={b:?}: got {g:?}, exact ({:e},{:e}), {e:.1} ulp of the modulus",
            T::NAME, q.re.f(), q.im.f()
        );
    }
    // by a scalar: correctly rounded components
    let s = T::from64(b.0);
    if b.0 != 0.0 && na / b.0.abs() < T::MAX / 4.0 {
        let z = C::new(T::from64(a.0), T::from64(a.1));
        for (f, g) in [("a / s", z / s), ("a / &s", z / &s), ("&a / &s", &z / &s)] {
            for (x, y) in [(g.re.to64(), a.0 / b.0), (g.im.to64(), a.1 / b.0)] {
                ensure!(
                    (x - y).abs() <= 2.0 * T::EPS * y.abs() + 4.0 * T::MIN_POS * T::EPS || x == y,
                    "{f} over {}: a={a:?} s={:e}: got {g:?}", T::NAME, b.0
                );
            }
        }
    }
    Ok(())
}

/// Fixed inputs outside the normal range of squared magnitudes.
fn extreme<T: Fl + Field>(l: &mut Log) {
    let big = 2f64.powi(T::MAX_EXP / 2 + 8);
    let tiny = 2f64.powi(-T::MAX_EXP / 2 - 20);
    let probes: [(&str, (f64, f64), (f64, f64)); 4] = [
        ("large-by-large", (big, big), (big, -big)),
        ("one-by-large", (1.0, 0.0), (big, big)),
        ("tiny-by-tiny", (tiny, tiny), (tiny, -tiny)),
        ("one-by-tiny", (1.0, 0.0), (tiny, tiny)),
    ];
    for (name, a, b) in probes {
        l.case(key_of(&(T::NAME, name)), true);
        l.count("extreme", 1);
        let (f, g) = eval_float::<T>(a, b).remove(0);
        let (e, q) = err(&g, a, b);
        if !(e <= TOL) {
            l.finding(
                &format!("{}-{name}", T::NAME),
                format!("{f} over {}: ({:e},{:e}) / ({:e},{:e}) gives {g:?}, exact ({:e},{:e})", T::NAME, a.0, a.1, b.0, b.1, q.re.f(), q.im.f()),
            );
        }
    }
}

fn main() {
    let run = Run::new(
        "C05",
        "a case is a dividend and a non-zero divisor divided in all forms and multiplied back; \
         non-trivial if they differ and the dividend is not zero",
    );
    run.require("exact", 5000);
    run.require("nested", 1000);
    run.require("float_f32", 10_000);
    run.require("float_f64", 10_000);
    run.require("extreme", 8);
    run.cases("exact", run.n(6000, 300_000), exact);
    run.cases("nested", run.n(2000, 50_000), nested);
    run.cases("f32", run.n(40_000, 4_000_000), float::<f32>);
    run.cases("f64", run.n(40_000, 4_000_000), float::<f64>);
    run.cases("extreme", 1, |_, l| {
        extreme::<f32>(l);
        extreme::<f64>(l);
        Ok(())
    });
    run.finish()
}
