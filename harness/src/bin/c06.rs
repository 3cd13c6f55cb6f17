//! C06: complex exp, sin, cos, sinh, cosh, tan against a double-double oracle.
use harness::dd::{Fl, CD, DD};
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::Complex;
use magnesia::functions::{Cos, Cosh, Exp, Sin, Sinh, Tan};

/// tolerances in ulp: each component / relative to the modulus (tan)
const TOL: f64 = 10.0;
const TOL_TAN: f64 = 40.0;

fn arg<T: Fl>(r: &mut Rng, lim: f64) -> f64 {
    use std::f64::consts::PI;
    let x = match r.below(19) {
        // large arguments of the periodic factors
        10 => 2f64.powi(r.range(3, 30) as i32) * (1.0 + r.unit()) * r.pick(&[1.0, -1.0]),
        11 => 2f64.powi(r.range(3, T::MAX_EXP as i64 - 1) as i32) * (1.0 + r.unit()) * r.pick(&[1.0, -1.0]),
        // at any distance from their zeros
        12 => r.range(-9, 9) as f64 * PI / 2.0 * (1.0 + 2f64.powi(-r.range(3, 50) as i32) * (r.unit() - 0.5)),
        0 => 0.0,
        1 => -0.0,
        2 => r.range(-64, 64) as f64 * PI / 2.0,
        3 => r.range(-64, 64) as f64 * PI / 4.0 * (1.0 + T::EPS * r.range(-3, 3) as f64),
        4 => 2f64.powi(r.range(-40, 4) as i32) * (0.5 + r.unit()),
        5 => -(2f64.powi(r.range(-40, 4) as i32)),
        6 => (r.unit() - 0.5) * T::MIN_POS * 64.0,
        7 => r.range(-9, 9) as f64,
        8 => (r.unit() - 0.5) * 2.0 * lim,
        9 => 2f64.powi(r.range(T::MIN_EXP as i64, 0) as i32) * if r.chance(1, 2) { 1.0 } else { -1.0 },
        _ => (r.unit() - 0.5) * 14.0,
    };
    T::from64(x).to64()
}

struct Want {
    name: &'static str,
    val: CD,
    tol: f64,
    normwise: bool,
    /// all real factors representable
    usable: bool,
}

fn oracle<T: Fl>(x: f64, y: f64) -> Vec<Want> {
    let big = T::MAX / 16.0;
    let ch = |t: f64| t.abs() < big.ln();
    let w = |name, val: CD, usable: bool| {
        let fits = val.re.f().abs() < big && val.im.f().abs() < big;
        Want { name, val, tol: TOL, normwise: false, usable: usable && fits }
    };
    let tan_lim = if T::MAX_EXP == 127 { 40.0 } else { 350.0 };
    let mut t = w("tan", CD::tan(x, y), y.abs() <= tan_lim);
    t.tol = TOL_TAN;
    t.normwise = true;
    let mut v = vec![t];
    v.push(w("exp", CD::exp(x.clamp(-1300.0, 1300.0), y), x < big.ln()));
    let xy = |f: fn(f64, f64) -> CD, ok: bool, n| {
        if ok { w(n, f(x, y), true) } else { w(n, CD::new(0.0, 0.0), false) }
    };
    v.push(xy(CD::sin, ch(y), "sin"));
    v.push(xy(CD::cos, ch(y), "cos"));
    v.push(xy(CD::sinh, ch(x), "sinh"));
    v.push(xy(CD::cosh, ch(x), "cosh"));
    v
}

/// error of `got` in ulp
fn err<T: Fl>(got: (f64, f64), w: &Want) -> f64 {
    let floor = 4.0 * T::MIN_POS;
    let e = if w.normwise {
        CD::new(got.0, got.1).sub(w.val).abs().f() / (w.val.abs().f().max(floor) * T::EPS)
    } else {
        let c = |g: f64, x: DD| (DD::from(g) - x).abs().f() / (x.abs().f().max(floor) * T::EPS);
        c(got.0, w.val.re).max(c(got.1, w.val.im))
    };
    if got.0.is_nan() || got.1.is_nan() { f64::INFINITY } else { e }
}

macro_rules! float {
    ($case:ident, $probe:ident, $t:ty) => {
        fn $case(r: &mut Rng, l: &mut Log) -> Res {
            let lim: f64 = if <$t>::MAX_EXP == 128 { 85.0 } else { 705.0 };
            let (mut x, mut y) = (arg::<$t>(r, lim), arg::<$t>(r, lim));
            match r.below(10) {
                0 => y = 0.0,
                1 => x = 0.0,
                2 => y = x,
                3 => y = -x,
                // each large argument with a moderate other one
                4 if x.abs() > 700.0 => y = (r.unit() - 0.5) * 20.0,
                5 if y.abs() > 700.0 => x = (r.unit() - 0.5) * 20.0,
                _ => {}
            }
            if x.abs() > 1000.0 || y.abs() > 1000.0 { l.count("large_periodic_argument", 1); }
            (x, y) = (x as $t as f64, y as $t as f64);
            let z = Complex::new(x as $t, y as $t);
            l.case(key_of(&(stringify!($t), x.to_bits(), y.to_bits())), x != 0.0 && y != 0.0);
            l.count(stringify!($t), 1);
            let q = (if x < 0.0 { 1 } else { 0 }) + (if y < 0.0 { 2 } else { 0 });
            l.count(&format!("quadrant{q}"), 1);
            if y == 0.0 { l.count("real_axis", 1); }
            if x == 0.0 { l.count("imaginary_axis", 1); }
            l.sample(|| format!("{}: z=({x:e},{y:e})", stringify!($t)));
            for w in oracle::<$t>(x, y) {
                if !w.usable {
                    l.count("skipped_overflow", 1);
                    continue;
                }
                let g: Complex<$t> = match w.name {
                    "exp" => z.exp(),
                    "sin" => z.sin(),
                    "cos" => z.cos(),
                    "sinh" => z.sinh(),
                    "cosh" => z.cosh(),
                    _ => z.tan(),
                };
                let e = err::<$t>((g.re as f64, g.im as f64), &w);
                l.count(w.name, 1);
                l.max(&format!("err_ulp_x100_{}", w.name), (e.min(1e9) * 100.0) as u64);
                ensure!(
                    e <= w.tol,
                    "{} over {}: z=({x:e},{y:e}): got {g:?}, exact ({:e},{:e}), {e:.1} ulp",
                    w.name, stringify!($t), w.val.re.f(), w.val.im.f()
                );
                if y == 0.0 {
                    let f: $t = match w.name {
                        "exp" => (x as $t).exp(),
                        "sin" => (x as $t).sin(),
                        "cos" => (x as $t).cos(),
                        "sinh" => (x as $t).sinh(),
                        "cosh" => (x as $t).cosh(),
                        _ => (x as $t).tan(),
                    };
                    let d = (g.re as f64 - f as f64).abs();
                    ensure!(
                        d <= w.tol * <$t as Fl>::EPS * (f as f64).abs() + 4.0 * <$t as Fl>::MIN_POS && g.im == 0.0,
                        "{} over {}: on the real axis at {x:e}: got {g:?}, real function {f:e}",
                        w.name, stringify!($t)
                    );
                }
            }
            Ok(())
        }
        fn $probe(l: &mut Log) {
            let ys: &[f64] = if <$t>::MAX_EXP == 128 { &[50.0, -60.0, 80.0] } else { &[370.0, -500.0, 700.0] };
            for y in ys {
                let x = 0.75f64;
                l.case(key_of(&(stringify!($t), "probe", *y as i64)), true);
                l.count("probes", 1);
                let g = Complex::new(x as $t, *y as $t).tan();
                let w = Want { name: "tan", val: CD::tan(x, *y), tol: TOL_TAN, normwise: true, usable: true };
                let e = err::<$t>((g.re as f64, g.im as f64), &w);
                if !(e <= w.tol) {
                    l.finding(
                        &format!("{}-tan-at-im-{y}", stringify!($t)),
                        format!("tan over {}: z=({x},{y}) gives {g:?}, exact ({:e},{:e})", stringify!($t), w.val.re.f(), w.val.im.f()),
                    );
                }
            }
        }
    };
}
float!(case32, probe32, f32);
float!(case64, probe64, f64);

fn main() {
    let run = Run::new(
        "C06",
        "a case is a complex argument at which all six functions are compared with a double-double \
         oracle; non-trivial if neither component is zero",
    );
    for q in 0..4 {
        run.require(["quadrant0", "quadrant1", "quadrant2", "quadrant3"][q], 5000);
    }
    run.require("real_axis", 1000);
    run.require("imaginary_axis", 1000);
    run.require("large_periodic_argument", 5000);
    run.require("tan", 20_000);
    run.require("exp", 20_000);
    run.cases("f32", run.n(30_000, 1_500_000), case32);
    run.cases("f64", run.n(30_000, 1_500_000), case64);
    run.cases("probes", 1, |_, l| {
        probe32(l);
        probe64(l);
        Ok(())
    });
    run.finish()
}
