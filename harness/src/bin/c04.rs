//! C04: complex ring arithmetic equals its definition in every operator form.
use harness::dd::Fl;
use harness::dd::DD;
use harness::elems::*;
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Conj, MulRefs, One, Ring, Zero};
use std::ops::*;

type C<T> = Complex<T>;

fn eq<T: El>(op: &str, got: C<T>, want: C<T>, a: &C<T>, b: &C<T>) -> Res {
    ensure!(got.same(&want), "{op} over {}: a={a:?} b={b:?}: got {got:?}, want {want:?}", T::NAME);
    Ok(())
}

fn check<T>(l: &mut Log, a: &C<T>, b: &C<T>) -> Res
where
    T: LibEl + Ring,
    for<'x> T: Add<&'x T, Output = T> + Sub<&'x T, Output = T> + AddAssign<T> + SubAssign<T>,
{
    l.case(key_of(&(T::NAME, a, b)), a != b);
    l.count(T::NAME, 1);
    l.sample(|| format!("{}: a={a:?} b={b:?}", T::NAME));
    let refs = |z: &C<T>| -> C<T> { C { re: z.re.clone(), im: z.im.clone() } };
    // sum
    let s = a.m_add(b);
    eq("a + b", a.clone() + b.clone(), s.clone(), a, b)?;
    eq("a + Complex{&re,&im}", a.clone() + C::new(&b.re, &b.im), s.clone(), a, b)?;
    let mut t = refs(a);
    t += b.clone();
    eq("a += b", t, s.clone(), a, b)?;
    let mut t = refs(a);
    t += b;
    eq("a += &b", t, s, a, b)?;
    // difference
    let d = a.m_sub(b);
    eq("a - b", a.clone() - b.clone(), d.clone(), a, b)?;
    eq("a - Complex{&re,&im}", a.clone() - C::new(&b.re, &b.im), d.clone(), a, b)?;
    let mut t = refs(a);
    t -= b.clone();
    eq("a -= b", t, d.clone(), a, b)?;
    let mut t = refs(a);
    t -= b;
    eq("a -= &b", t, d, a, b)?;
    // negation, conjugation
    eq("-a", -a.clone(), a.m_neg(), a, b)?;
    eq("a.conj()", a.clone().conj(), a.m_conj(), a, b)?;
    // product
    let m = a.m_mul(b);
    eq("a * b", a.clone() * b.clone(), m.clone(), a, b)?;
    eq("&a * &b", a * b, m.clone(), a, b)?;
    eq("a.mul_refs(&b)", a.mul_refs(b), m.clone(), a, b)?;
    let mut t = refs(a);
    t *= b.clone();
    eq("a *= b", t, m, a, b)?;
    // the same object on both sides
    eq("&a * &a", a * a, a.m_mul(a), a, a)?;
    eq("a.mul_refs(&a)", a.mul_refs(a), a.m_mul(a), a, a)?;
    // scaling from the right
    let c = b.re.clone();
    let w = C { re: a.re.m_mul(&c), im: a.im.m_mul(&c) };
    eq("a * scalar", a.clone() * c.clone(), w, a, b)?;
    let w = C { re: a.re.m_mul(&a.im), im: a.im.m_mul(&a.im) };
    eq("a * a.im", a.clone() * a.im.clone(), w, a, b)?;
    // squared norm
    let n = a.sqr_norm();
    let w = a.re.m_mul(&a.re).m_add(&a.im.m_mul(&a.im));
    ensure!(n.same(&w), "sqr_norm over {}: a={a:?}: got {n:?}, want {w:?}", T::NAME);
    // neutral elements
    let (z, o) = (C::<T>::zero(), C::<T>::one());
    ensure!(z.same(&C::m_int(0)) && o.same(&C::m_int(1)), "zero/one over {}: {z:?} {o:?}", T::NAME);
    ensure!(C::new(a.re.clone(), a.im.clone()).same(a), "Complex::new over {}: a={a:?}", T::NAME);
    // component equality
    let same = a.re == b.re && a.im == b.im;
    ensure!((a == b) == same, "== over {}: a={a:?} b={b:?} gives {}", T::NAME, a == b);
    Ok(())
}

fn pair<T: El>(r: &mut Rng) -> (C<T>, C<T>) {
    let a = C::<T>::gen(r);
    let b = match r.below(12) {
        0 => a.clone(),
        1 => a.m_conj(),
        2 => a.m_neg(),
        3 => C { re: a.im.clone(), im: a.re.clone() },
        4 => C { re: a.re.clone(), im: T::gen(r) },
        5 => C { re: T::gen(r), im: a.im.clone() },
        _ => C::gen(r),
    };
    (a, b)
}

/// every representable component of a narrow integer type must be produced
fn narrow(r: &mut Rng, l: &mut Log) -> Res {
    let gen = |r: &mut Rng| match r.below(6) {
        0 => -128i64,
        1 => 127,
        2 => r.range(-1, 1),
        3 => r.range(-12, 12),
        _ => r.range(-128, 127),
    };
    let ok = |x: i64| (-128..128).contains(&x);
    let v: [i64; 4] = [0; 4].map(|_| gen(r));
    let [a, b, c, d] = v;
    l.case(key_of(&("i8", v)), true);
    let z = |x: i64, y: i64| C::new(x as i8, y as i8);
    let same = |g: C<i8>, x: i64, y: i64| g.re as i64 == x && g.im as i64 == y;
    if ok(a + c) && ok(b + d) {
        l.count("narrow", 1);
        let mut t = z(a, b);
        t += z(c, d);
        let mut u = z(a, b);
        u += &z(c, d);
        ensure!(
            same(z(a, b) + z(c, d), a + c, b + d) && same(t, a + c, b + d) && same(u, a + c, b + d),
            "i8: ({a},{b}) + ({c},{d})"
        );
    }
    if ok(a - c) && ok(b - d) {
        l.count("narrow", 1);
        let mut t = z(a, b);
        t -= z(c, d);
        let mut u = z(a, b);
        u -= &z(c, d);
        ensure!(
            same(z(a, b) - z(c, d), a - c, b - d) && same(t, a - c, b - d) && same(u, a - c, b - d),
            "i8: ({a},{b}) - ({c},{d})"
        );
    }
    if ok(-b) {
        l.count("narrow", 1);
        ensure!(same(z(a, b).conj(), a, -b), "i8: conj ({a},{b})");
        if ok(-a) {
            ensure!(same(-z(a, b), -a, -b), "i8: -({a},{b})");
        }
    }
    if [a * c, b * d, a * d, b * c, a * c - b * d, a * d + b * c].iter().all(|x| ok(*x)) {
        l.count("narrow", 1);
        let mut t = z(a, b);
        t *= z(c, d);
        let (x, y) = (a * c - b * d, a * d + b * c);
        ensure!(
            same(z(a, b) * z(c, d), x, y) && same(&z(a, b) * &z(c, d), x, y) && same(t, x, y),
            "i8: ({a},{b}) * ({c},{d})"
        );
    }
    if ok(a * c) && ok(b * c) {
        ensure!(same(z(a, b) * (c as i8), a * c, b * c), "i8: ({a},{b}) * {c}");
    }
    if ok(a * a) && ok(b * b) && ok(a * a + b * b) {
        let n = z(a, b).sqr_norm();
        ensure!(n as i64 == a * a + b * b, "i8: sqr_norm ({a},{b}) = {n}");
    }
    Ok(())
}

fn float<T>(r: &mut Rng, l: &mut Log) -> Res
where
    T: Fl + Ring + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + AddAssign + SubAssign,
    for<'x> &'x T: Add<&'x T, Output = T>,
{
    let half = (T::MAX_EXP / 2 - 4) as i64;
    let base = r.range(-half / 2, half / 2);
    let gen = |r: &mut Rng| -> f64 {
        let x = match r.below(8) {
            0 => r.range(-3, 3) as f64,
            1 => 1.0 + T::EPS * r.range(-4, 4) as f64,
            _ => (r.unit() - 0.5) * 4.0,
        };
        let e = if r.chance(1, 4) { r.range(-20, 20) } else { 0 } + base / 2;
        T::from64(x * 2f64.powi(e as i32)).to64()
    };
    let v: [f64; 4] = [0; 4].map(|_| gen(r));
    let [a, b, c, d] = v;
    l.case(key_of(&(T::NAME, v)), true);
    l.count(&format!("float_{}", T::NAME), 1);
    l.sample(|| format!("{}: ({a:e},{b:e}) ({c:e},{d:e})", T::NAME));
    let z = |x: f64, y: f64| C::new(T::from64(x), T::from64(y));
    let p = |x: f64, y: f64| DD::from(x) * DD::from(y);
    let (x, y) = (p(a, c) - p(b, d), p(a, d) + p(b, c));
    let tx = 4.0 * T::EPS * ((a * c).abs() + (b * d).abs()) + 8.0 * T::MIN_POS;
    let ty = 4.0 * T::EPS * ((a * d).abs() + (b * c).abs()) + 8.0 * T::MIN_POS;
    let mut t = z(a, b);
    t *= z(c, d);
    for (n, g) in [("a * b", z(a, b) * z(c, d)), ("&a * &b", &z(a, b) * &z(c, d)), ("a *= b", t)] {
        let ex = (DD::from(g.re.to64()) - x).f().abs();
        let ey = (DD::from(g.im.to64()) - y).f().abs();
        ensure!(
            ex <= tx && ey <= ty,
            "{n} over {}: a=({a:e},{b:e}) b=({c:e},{d:e}): got {g:?}, errors {ex:e} {ey:e} over {tx:e} {ty:e}",
            T::NAME
        );
    }
    let s = z(a, b) + z(c, d);
    let e = z(a, b) - z(c, d);
    ensure!(
        s.re.to64() == T::from64(a + c).to64() && s.im.to64() == T::from64(b + d).to64(),
        "a + b over {}: ({a:e},{b:e}) ({c:e},{d:e}): {s:?}", T::NAME
    );
    ensure!(
        e.re.to64() == T::from64(a - c).to64() && e.im.to64() == T::from64(b - d).to64(),
        "a - b over {}: ({a:e},{b:e}) ({c:e},{d:e}): {e:?}", T::NAME
    );
    let n = z(a, b).sqr_norm();
    let w = p(a, a) + p(b, b);
    ensure!(
        (DD::from(n.to64()) - w).f().abs() <= 4.0 * T::EPS * w.f() + 8.0 * T::MIN_POS,
        "sqr_norm over {}: ({a:e},{b:e}): {n:?}, exact {:e}", T::NAME, w.f()
    );
    let q = z(a, b) * T::from64(c);
    ensure!(
        (DD::from(q.re.to64()) - p(a, c)).f().abs() <= T::EPS * (a * c).abs() + 8.0 * T::MIN_POS
            && (DD::from(q.im.to64()) - p(b, c)).f().abs() <= T::EPS * (b * c).abs() + 8.0 * T::MIN_POS,
        "a * scalar over {}: ({a:e},{b:e}) {c:e}: {q:?}", T::NAME
    );
    let (m, k) = (-z(a, b), z(a, b).conj());
    ensure!(
        m.re.to64() == -a && m.im.to64() == -b && k.re.to64() == a && k.im.to64() == -b,
        "neg/conj over {}: ({a:e},{b:e}): {m:?} {k:?}", T::NAME
    );
    Ok(())
}

fn main() {
    let run = Run::new(
        "C04",
        "a case is a pair of complex numbers with all operator forms applied; non-trivial if the operands differ",
    );
    for k in ["Zp", "Nc", "Free", "i64", "f64"] {
        run.require(k, 2000);
    }
    run.require("narrow", 4000);
    run.require("float_f32", 10000);
    run.cases("zp", run.n(20_000, 800_000), |r, l| { let (a, b) = pair::<Zp>(r); check(l, &a, &b) });
    run.cases("nc", run.n(20_000, 800_000), |r, l| { let (a, b) = pair::<Nc>(r); check(l, &a, &b) });
    run.cases("free", run.n(4000, 80_000), |r, l| { let (a, b) = pair::<Free>(r); check(l, &a, &b) });
    run.cases("i64", run.n(10_000, 300_000), |r, l| { let (a, b) = pair::<i64>(r); check(l, &a, &b) });
    // special values too: componentwise definition with IEEE semantics, small integers exact
    run.cases("f64-int", run.n(4000, 100_000), |r, l| {
        let (a, b) = pair::<i64>(r);
        let f = |z: C<i64>| C::new(z.re as f64, z.im as f64);
        check(l, &f(a), &f(b))
    });
    run.cases("nested", run.n(4000, 100_000), |r, l| {
        // complex numbers over complex numbers (a commutative ring with zero divisors)
        let (a, b) = pair::<C<Zp>>(r);
        l.case(key_of(&("nested", &a, &b)), true);
        for (n, g, w) in [
            ("a * b", a * b, a.m_mul(&b)),
            ("&a * &b", &a * &b, a.m_mul(&b)),
            ("a + b", a + b, a.m_add(&b)),
            ("a - b", a - b, a.m_sub(&b)),
            ("-a", -a, a.m_neg()),
            ("conj a", a.conj(), a.m_conj()),
        ] {
            ensure!(g == w, "{n} over Complex<Zp>: a={a:?} b={b:?}: {g:?}, want {w:?}");
        }
        let n = a.sqr_norm();
        let w = a.re.m_mul(&a.re).m_add(&a.im.m_mul(&a.im));
        ensure!(n == w, "sqr_norm over Complex<Zp>: {a:?}: {n:?}, want {w:?}");
        let s = a * b.im;
        ensure!(s.re == a.re.m_mul(&b.im) && s.im == a.im.m_mul(&b.im), "scalar over Complex<Zp>: {a:?} * {:?}: {s:?}", b.im);
        Ok(())
    });
    run.cases("narrow-i8", run.n(40_000, 2_000_000), narrow);
    run.cases("float-f32", run.n(40_000, 3_000_000), float::<f32>);
    run.cases("float-f64", run.n(40_000, 3_000_000), float::<f64>);
    run.finish()
}
