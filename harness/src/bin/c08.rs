//! C08: complex modulus, argument and logarithm.
use harness::dd::{Fl, CD, DD};
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::Complex;
use magnesia::functions::{Abs, Exp, Ln};

macro_rules! float {
    ($case:ident, $t:ty) => {
        fn $case(r: &mut Rng, l: &mut Log) -> Res {
            type F = $t;
            const EPS: f64 = <F as Fl>::EPS;
            let lim = (<F as Fl>::MAX_EXP / 2 - 3) as i64;
            let e0 = if r.chance(1, 3) { r.range(-lim, lim) } else { r.range(-4, 4) };
            let m = |r: &mut Rng| -> f64 {
                let x = match r.below(6) {
                    0 => 1.0,
                    1 => -1.0,
                    2 => 1.0 + EPS * r.range(-3, 3) as f64,
                    _ => (r.unit() - 0.5) * 2.0,
                };
                (x * 2f64.powi(e0 as i32)) as F as f64
            };
            let (mut x, mut y) = (m(r), m(r));
            match r.below(14) {
                0 => y = 0.0,
                1 => y = -0.0,
                2 => x = 0.0,
                3 => x = -0.0,
                4 => y = (y * 2f64.powi(-(r.below(60) as i32))) as F as f64,
                5 => x = (x * 2f64.powi(-(r.below(60) as i32))) as F as f64,
                6 => {
                    // modulus close to one
                    let t = r.unit() * 6.3;
                    let d = 1.0 + (r.unit() - 0.5) * 2f64.powi(-(r.below(24) as i32));
                    x = (t.cos() * d) as F as f64;
                    y = (t.sin() * d) as F as f64;
                }
                7 => {
                    // Pythagorean triples: exact modulus
                    let (a, b) = (r.range(1, 30) as f64, r.range(1, 30) as f64);
                    x = a * a - b * b;
                    y = 2.0 * a * b;
                    if r.chance(1, 2) { x = -x; }
                    if r.chance(1, 2) { y = -y; }
                }
                8 => y = if r.chance(1, 2) { x } else { -x },
                _ => {}
            }
            let n2 = x * x + y * y;
            if !(n2 > <F as Fl>::MIN_POS * 16.0 && n2 < <F as Fl>::MAX / 16.0) {
                l.count("skipped_range", 1);
                return Ok(());
            }
            let z = Complex::new(x as F, y as F);
            l.case(key_of(&(stringify!($t), x.to_bits(), y.to_bits())), x != 0.0 && y != 0.0);
            l.count(stringify!($t), 1);
            let q = (if x < 0.0 { 1 } else { 0 }) + (if y < 0.0 { 2 } else { 0 });
            l.count(&format!("quadrant{q}"), 1);
            l.sample(|| format!("{}: z=({x:e},{y:e})", stringify!($t)));
            let ctx = format!("over {}: z=({x:e},{y:e})", stringify!($t));
            // modulus
            let w = CD::new(x, y).abs();
            let (a, b) = (z.abs(), (&z).abs());
            ensure!(a.to_bits() == b.to_bits(), "abs {ctx}: by value {a:e}, by reference {b:e}");
            let e = (DD::from(a as f64) - w).abs().f() / (w.f() * EPS);
            l.max("abs_ulp_x100", (e * 100.0) as u64);
            ensure!(e <= 4.0, "abs {ctx}: got {a:e}, exact {:e}, {e:.1} ulp", w.f());
            // argument
            let w = DD::atan2(y, x);
            let g = z.arg() as f64;
            let e = (DD::from(g) - w).abs().f() / (w.abs().f().max(4.0 * <F as Fl>::MIN_POS) * EPS);
            l.max("arg_ulp_x100", (e * 100.0) as u64);
            ensure!(e <= 4.0 && g.abs() <= std::f32::consts::PI as f64, "arg {ctx}: got {g:e}, exact {:e}, {e:.1} ulp", w.f());
            ensure!(g == 0.0 || (g > 0.0) == (y > 0.0 || (y == 0.0 && y.is_sign_positive())), "arg {ctx}: got {g:e}: wrong sign");
            // logarithm
            let ln = z.ln();
            let lw = CD::ln_abs(x, y);
            let e = (DD::from(ln.re as f64) - lw).abs().f() / (EPS * lw.abs().f().max(1.0));
            l.max("ln_err_x100", (e * 100.0) as u64);
            ensure!(e <= 4.0, "ln {ctx}: got {ln:?}, exact real part {:e}, error {e:.1} eps", lw.f());
            let e = (DD::from(ln.im as f64) - w).abs().f() / (w.abs().f().max(4.0 * <F as Fl>::MIN_POS) * EPS);
            ensure!(e <= 4.0, "ln {ctx}: got {ln:?}, exact imaginary part {:e}, {e:.1} ulp", w.f());
            // exp(ln z) = z
            let back = ln.exp();
            let d = CD::new(back.re as f64, back.im as f64).sub(CD::new(x, y)).abs().f();
            let tol = (16.0 + 4.0 * lw.abs().f()) * EPS * n2.sqrt();
            ensure!(d <= tol, "exp(ln z) {ctx}: got {back:?}, off by {d:e}");
            Ok(())
        }
    };
}
float!(case32, f32);
float!(case64, f64);

fn main() {
    let run = Run::new(
        "C08",
        "a case is a non-zero complex number whose modulus, argument and logarithm are compared with a \
         double-double oracle; non-trivial if neither component is zero",
    );
    for q in ["quadrant0", "quadrant1", "quadrant2", "quadrant3", "f32", "f64"] {
        run.require(q, 10_000);
    }
    run.cases("f32", run.n(30_000, 2_000_000), case32);
    run.cases("f64", run.n(30_000, 2_000_000), case64);
    run.finish()
}
