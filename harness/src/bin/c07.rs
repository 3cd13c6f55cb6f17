//! C07: complex square root against a double-double oracle.
use harness::dd::{Fl, CD, DD};
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::Complex;
use magnesia::functions::Sqrt;

/// in ulp of |s| and in ulp of each component
const TOL: f64 = 6.0;
const TOL_COMP: f64 = 16.0;

macro_rules! float {
    ($case:ident, $t:ty) => {
        fn $case(r: &mut Rng, l: &mut Log) -> Res {
            type F = $t;
            let lim = (<F as Fl>::MAX_EXP / 2 - 3) as i64;
            let e0 = if r.chance(1, 3) { r.range(-lim, lim) } else { r.range(-6, 6) };
            let m = |r: &mut Rng, e: i64| -> f64 {
                let x = match r.below(6) {
                    0 => 1.0,
                    1 => -1.0,
                    2 => 1.0 + <F as Fl>::EPS * r.range(-3, 3) as f64,
                    _ => (r.unit() - 0.5) * 2.0,
                };
                (x * 2f64.powi(e as i32)) as F as f64
            };
            let (mut x, mut y) = (m(r, e0), m(r, e0));
            match r.below(14) {
                0 => y = 0.0,
                1 => y = -0.0,
                2 => x = 0.0,
                3 => x = -0.0,
                // close to an axis
                4 | 5 => y = (y * 2f64.powi(-(r.below(60) as i32))) as F as f64,
                6 => x = (x * 2f64.powi(-(r.below(60) as i32))) as F as f64,
                // close to the switch |re| = 2|im| and to other ratios
                7 => y = (x * 0.5 * (1.0 + <F as Fl>::EPS * r.range(-4, 4) as f64)) as F as f64,
                8 => y = (-x * 0.5 * (1.0 + 0.1 * (r.unit() - 0.5))) as F as f64,
                9 => y = if r.chance(1, 2) { x } else { -x },
                10 => {
                    // squares of small numbers: exact roots
                    let (a, b) = (r.range(-40, 40) as f64, r.range(-40, 40) as f64);
                    x = a * a - b * b;
                    y = 2.0 * a * b;
                }
                _ => {}
            }
            let n2 = x * x + y * y;
            let in_range = n2 > <F as Fl>::MIN_POS * 16.0 && n2 < <F as Fl>::MAX / 16.0;
            if !(in_range || (x == 0.0 && y == 0.0)) {
                l.count("skipped_range", 1);
                return Ok(());
            }
            let z = Complex::new(x as F, y as F);
            l.case(key_of(&(stringify!($t), x.to_bits(), y.to_bits())), x != 0.0 && y != 0.0);
            l.count(stringify!($t), 1);
            l.sample(|| format!("{}: z=({x:e},{y:e})", stringify!($t)));
            let q = (if x < 0.0 { 1 } else { 0 }) + (if y < 0.0 { 2 } else { 0 });
            l.count(&format!("quadrant{q}"), 1);
            if x.abs() > 2.0 * y.abs() { l.count("near_real_axis", 1) } else { l.count("off_real_axis", 1) }
            let s = z.sqrt();
            let (a, b) = (s.re as f64, s.im as f64);
            let w = CD::sqrt(x, y);
            let ctx = || format!("sqrt over {}: z=({x:e},{y:e}): got {s:?}, exact ({:e},{:e})", stringify!($t), w.re.f(), w.im.f());
            ensure!(a >= 0.0, "{}: real part is not >= 0", ctx());
            if y > 0.0 {
                ensure!(b >= 0.0, "{}: imaginary part has the wrong sign", ctx());
            } else if y < 0.0 {
                ensure!(b <= 0.0, "{}: imaginary part has the wrong sign", ctx());
            } else if x >= 0.0 {
                ensure!(b == 0.0, "{}: root of a non-negative real is not real", ctx());
            } else if y.is_sign_positive() {
                ensure!(b >= 0.0, "{}: root of a negative real is below the axis", ctx());
            }
            // for im = -0 and negative real part both roots are accepted
            let b = if y == 0.0 && y.is_sign_negative() { b.abs() } else { b };
            if x == 0.0 && y == 0.0 {
                ensure!(a == 0.0 && b == 0.0, "{}: root of zero", ctx());
                return Ok(());
            }
            let modulus = w.abs().f();
            let e = CD::new(a, b).sub(w).abs().f() / (modulus * <F as Fl>::EPS);
            ensure!(e <= TOL, "{}: {e:.1} ulp of the modulus", ctx());
            l.max("err_modulus_ulp_x100", (e * 100.0) as u64);
            for (g, v) in [(a, w.re), (b, w.im)] {
                let e = (DD::from(g) - v).abs().f() / (v.abs().f().max(4.0 * <F as Fl>::MIN_POS) * <F as Fl>::EPS);
                ensure!(e <= TOL_COMP, "{}: a component is off by {e:.1} ulp", ctx());
                l.max("err_component_ulp_x100", (e * 100.0) as u64);
            }
            // s * s == z
            let ss = CD::new(a, b).mul(CD::new(a, b));
            let e = ss.sub(CD::new(x, if y == 0.0 { 0.0 } else { y })).abs().f() / (n2.sqrt() * <F as Fl>::EPS);
            ensure!(e <= 4.0 * TOL, "{}: s*s differs from z by {e:.1} ulp", ctx());
            Ok(())
        }
    };
}
float!(case32, f32);
float!(case64, f64);

fn main() {
    let run = Run::new(
        "C07",
        "a case is a complex number whose root is compared with a double-double oracle; non-trivial \
         if neither component is zero",
    );
    for q in ["quadrant0", "quadrant1", "quadrant2", "quadrant3", "near_real_axis", "off_real_axis", "f32", "f64"] {
        run.require(q, 10_000);
    }
    run.cases("f32", run.n(60_000, 4_000_000), case32);
    run.cases("f64", run.n(60_000, 4_000_000), case64);
    run.finish()
}
