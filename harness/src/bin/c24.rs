//! C24: the Ackley test function against the formula in f64.
use harness::ensure;
use harness::run::{Log, Res, Rng, Run};
use magnesia::optimize::test_functions::ackley;
use std::f64::consts::{E, PI};

fn exact(x: f64, y: f64) -> f64 {
    // exp_m1 and a product of sines: no cancellation near the origin
    let q = (PI * x).sin().powi(2) + (PI * y).sin().powi(2); // 1 - cos = 2 sin^2
    -20.0 * (-0.2 * (0.5 * (x * x + y * y)).sqrt()).exp_m1() - E * (-q).exp_m1()
}
/// rounding allowance: the arguments of the cosines carry |2 pi x| eps
fn slack(x: f64, y: f64) -> f64 {
    let eps = f32::EPSILON as f64;
    eps * (24.0 + 2.0 * E * 2.0 * PI * (x.abs() + y.abs()))
}

fn point(x: f32, y: f32, l: &mut Log) -> Res {
    let (dx, dy) = (x as f64, y as f64);
    let (got, want, tol) = (ackley(x, y), exact(dx, dy), slack(dx, dy));
    ensure!((got as f64 - want).abs() <= tol, "ackley({x:?}, {y:?}) = {got:?}, exact {want}, allowance {tol:e}");
    for (a, b, how) in [(y, x, "exchanged"), (-x, y, "first negated"), (x, -y, "second negated"), (-x, -y, "both negated")] {
        let s = ackley(a, b);
        ensure!((s as f64 - got as f64).abs() <= 2.0 * tol, "ackley({x:?}, {y:?}) = {got:?} but {s:?} with coordinates {how}");
    }
    if want > tol {
        ensure!(got > 0.0, "ackley({x:?}, {y:?}) = {got:?} is not positive");
        l.count("positive", 1);
    }
    l.max("error in permille of the allowance", ((got as f64 - want).abs() / tol * 1000.0) as u64);
    l.case(((x.to_bits() as u64) << 32) | y.to_bits() as u64, want > tol);
    Ok(())
}
fn coord(r: &mut Rng) -> f32 {
    match r.below(9) {
        0 => 0.0,
        1 => r.range(-5, 5) as f32,
        2 => r.range(-10, 10) as f32 / 2.0,
        3 => r.range(-5, 5) as f32 + (r.unit() as f32 - 0.5) * 1e-3,
        4 => (r.unit() as f32 - 0.5) * (2.0f32).powi(-(r.below(60) as i32)),
        5 => (r.unit() as f32 - 0.5) * 200.0,
        6 => r.range(-20, 20) as f32 / 4.0,
        _ => (r.unit() as f32 - 0.5) * 10.0,
    }
}
fn random(r: &mut Rng, l: &mut Log) -> Res {
    let x = coord(r);
    let y = if r.chance(1, 10) { x } else { coord(r) };
    l.sample(|| format!("({x}, {y}): {} exact {}", ackley(x, y), exact(x as f64, y as f64)));
    point(x, y, l)
}
fn large(r: &mut Rng, l: &mut Log) -> Res {
    // far out the first term saturates and the second stays in [e - e, e - 1/e]
    let s = r.below(40) as i32;
    let x = (r.unit() as f32 - 0.5) * (2.0f32).powi(s);
    let y = (r.unit() as f32 - 0.5) * (2.0f32).powi(s);
    let a = ackley(x, y);
    let base = -20.0 * (-0.2 * (0.5 * (x as f64 * x as f64 + y as f64 * y as f64)).sqrt()).exp_m1();
    ensure!(a as f64 >= base - 1e-4 && a as f64 <= base + E - 1.0 / E + 1e-4, "ackley({x:?}, {y:?}) = {a:?} is outside {base} + [0, e - 1/e]");
    l.case(((x.to_bits() as u64) << 32) | y.to_bits() as u64, true);
    Ok(())
}
fn main() {
    let run = Run::new("C24", "a point with a value above the rounding allowance");
    run.cases("random", run.n(20_000, 2_000_000), random);
    run.cases("large", run.n(2_000, 200_000), large);
    // a grid over the test domain, hitting every half integer
    run.cases_i("grid", run.n(64, 64), |i, _, l| {
        for k in 0..641 {
            point((i as f32 - 320.0) / 64.0, (k as f32 - 320.0) / 64.0, l)?;
        }
        Ok(())
    });
    run.require("positive", 50_000);
    run.finish()
}
