//! C09: real elementary functions and scalar helpers on all inputs.
use harness::ensure;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Conj, DivRefs, MulRefs, One, Zero};
use magnesia::functions::*;

/// distance in units in the last place; NaN equals NaN; signed zeros are told apart
macro_rules! ulps {
    ($name:ident, $t:ty, $i:ty) => {
        fn $name(a: $t, b: $t) -> u64 {
            if a.is_nan() || b.is_nan() {
                return if a.is_nan() && b.is_nan() { 0 } else { u64::MAX };
            }
            if a == 0.0 && b == 0.0 {
                return if a.is_sign_negative() == b.is_sign_negative() { 0 } else { u64::MAX };
            }
            if a.is_infinite() || b.is_infinite() {
                return if a == b { 0 } else { u64::MAX };
            }
            let k = |x: $t| {
                let b = x.to_bits() as $i;
                if b < 0 { <$i>::MIN - b } else { b }
            };
            (k(a) as i128 - k(b) as i128).unsigned_abs() as u64
        }
    };
}
ulps!(ulps32, f32, i32);
ulps!(ulps64, f64, i64);
const TOL: u64 = 4;

/// Reference for one f32 argument: the f64 function, rounded once.
fn unary32(x: f32) -> Result<(), String> {
    let d = x as f64;
    let t: [(&str, f32, f64); 10] = [
        ("abs", <f32 as Abs>::abs(x), d.abs()),
        ("abs of reference", <&f32 as Abs>::abs(&x), d.abs()),
        ("asin", <f32 as Asin>::asin(x), d.asin()),
        ("cos", <f32 as Cos>::cos(x), d.cos()),
        ("cosh", <f32 as Cosh>::cosh(x), d.cosh()),
        ("exp", <f32 as Exp>::exp(x), d.exp()),
        ("ln", <f32 as Ln>::ln(x), d.ln()),
        ("sin", <f32 as Sin>::sin(x), d.sin()),
        ("sinh", <f32 as Sinh>::sinh(x), d.sinh()),
        ("tan", <f32 as Tan>::tan(x), d.tan()),
    ];
    for (n, g, w) in t {
        let u = ulps32(g, w as f32);
        // close to overflow both the largest value and infinity are within rounding
        let edge = w.abs() >= f32::MAX as f64 * 0.999999 && g.abs() >= f32::MAX * 0.999999 && (g > 0.0) == (w > 0.0);
        ensure!(u <= TOL || edge, "{n} over f32: x={x:e} ({:#x}): got {g:e}, want {:e}", x.to_bits(), w as f32);
    }
    let (g, w) = (<f32 as Sqrt>::sqrt(&x), d.sqrt() as f32);
    ensure!(ulps32(g, w) <= TOL, "sqrt over f32: x={x:e}: got {g:e}, want {w:e}");
    ensure!(ulps32(Conj::conj(x), x) == 0, "conj over f32: x={x:e}: {:e}", x.conj());
    Ok(())
}
fn unary64(x: f64) -> Result<(), String> {
    let t: [(&str, f64, f64); 11] = [
        ("abs", <f64 as Abs>::abs(x), x.abs()),
        ("abs of reference", <&f64 as Abs>::abs(&x), x.abs()),
        ("asin", <f64 as Asin>::asin(x), x.asin()),
        ("cos", <f64 as Cos>::cos(x), x.cos()),
        ("cosh", <f64 as Cosh>::cosh(x), x.cosh()),
        ("exp", <f64 as Exp>::exp(x), x.exp()),
        ("ln", <f64 as Ln>::ln(x), x.ln()),
        ("sin", <f64 as Sin>::sin(x), x.sin()),
        ("sinh", <f64 as Sinh>::sinh(x), x.sinh()),
        ("sqrt", <f64 as Sqrt>::sqrt(&x), x.sqrt()),
        ("tan", <f64 as Tan>::tan(x), x.tan()),
    ];
    for (n, g, w) in t {
        let edge = w.abs() >= f64::MAX * 0.999999 && g.abs() >= f64::MAX * 0.999999 && (g > 0.0) == (w > 0.0);
        ensure!(ulps64(g, w) <= TOL || edge, "{n} over f64: x={x:e} ({:#x}): got {g:e}, want {w:e}", x.to_bits());
    }
    ensure!(ulps64(Conj::conj(x), x) == 0, "conj over f64: x={x:e}: {:e}", x.conj());
    Ok(())
}

const SPECIAL: [f64; 40] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1e-5, -1e-5, 1e5, -1e5, 88.7, -88.7, 89.5, -104.0, 709.7, -709.7, 710.5,
    -745.2, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324,
    -5e-324, 1e-40, -1e-40, 1e-45, 3.4028234663852886e38, -3.4028234663852886e38, 1e300, -1e300,
    std::f64::consts::PI, -std::f64::consts::FRAC_PI_2, 0.9999999999999999, -1.0000000000000002,
];

fn any64(r: &mut Rng) -> f64 {
    match r.below(8) {
        6 => f64::from_bits(r.u64() & !(0x7ff << 52) | (1023 - 80 + r.u64() % 160) << 52),
        7 => {
            // at any distance from a place where something happens
            let p = r.pick(&SPECIAL) * if r.chance(1, 4) { r.range(1, 9) as f64 } else { 1.0 };
            let d = 2f64.powi(-r.range(1, 53) as i32) * (1.0 + r.unit());
            if r.chance(1, 2) { p * (1.0 + d) } else { p * (1.0 - d) }
        }
        0 => r.pick(&SPECIAL),
        1 => f64::from_bits(r.u64()),
        2 => r.range(-1000, 1000) as f64 * std::f64::consts::FRAC_PI_4,
        3 => (r.unit() - 0.5) * 2.0,
        4 => (r.unit() - 0.5) * 1500.0,
        _ => (r.unit() - 0.5) * 2f64.powi(r.range(-60, 60) as i32),
    }
}
/// the second argument: unrelated, zero, or at any ratio to the first one
fn second(r: &mut Rng, x: f64) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1..=3 => x * 2f64.powi(r.range(-70, 70) as i32) * (1.0 + r.unit()) * r.pick(&[1.0, -1.0]),
        4 => x * r.pick(&[1.0, -1.0, 1.0 + f64::EPSILON, 1.0 - 2f64.powi(-30), 1.0 + 2f64.powi(-20)]),
        _ => any64(r),
    }
}
fn any32(r: &mut Rng) -> f32 {
    if r.chance(1, 3) {
        f32::from_bits(r.u64() as u32)
    } else {
        any64(r) as f32
    }
}

fn case32(r: &mut Rng, l: &mut Log) -> Res {
    let x = any32(r);
    let y = if r.chance(1, 2) { any32(r) } else { second(r, x as f64) as f32 };
    l.case(key_of(&(x.to_bits(), y.to_bits())), x.is_finite() && x != 0.0);
    l.count("f32", 1);
    l.count(if x.is_nan() { "nan" } else if x.is_infinite() { "infinite" } else if x == 0.0 { "zero" } else if !x.is_normal() { "subnormal" } else { "normal" }, 1);
    l.sample(|| format!("f32: x={x:e} y={y:e}"));
    unary32(x)?;
    let (g, w) = (<f32 as Atan2>::atan2(x, y), (x as f64).atan2(y as f64));
    ensure!(ulps32(g, w as f32) <= TOL, "atan2 over f32: ({x:e}, {y:e}): got {g:e}, want {w:e}");
    let (g, w) = (MulRefs::mul_refs(&x, &y), x * y);
    ensure!(ulps32(g, w) == 0, "mul_refs over f32: {x:e} {y:e}: {g:e}");
    let (g, w) = (DivRefs::div_refs(&x, &y), x / y);
    ensure!(ulps32(g, w) == 0, "div_refs over f32: {x:e} {y:e}: {g:e}");
    Ok(())
}
fn case64(r: &mut Rng, l: &mut Log) -> Res {
    let x = any64(r);
    let y = second(r, x);
    l.case(key_of(&(x.to_bits(), y.to_bits(), 64)), x.is_finite() && x != 0.0);
    l.count("f64", 1);
    l.count(if x.is_nan() { "nan" } else if x.is_infinite() { "infinite" } else if x == 0.0 { "zero" } else if !x.is_normal() { "subnormal" } else { "normal" }, 1);
    l.sample(|| format!("f64: x={x:e} y={y:e}"));
    unary64(x)?;
    let (g, w) = (<f64 as Atan2>::atan2(x, y), x.atan2(y));
    ensure!(ulps64(g, w) <= TOL, "atan2 over f64: ({x:e}, {y:e}): got {g:e}, want {w:e}");
    let (g, w) = (MulRefs::mul_refs(&x, &y), x * y);
    ensure!(ulps64(g, w) == 0, "mul_refs over f64: {x:e} {y:e}: {g:e}");
    let (g, w) = (DivRefs::div_refs(&x, &y), x / y);
    ensure!(ulps64(g, w) == 0, "div_refs over f64: {x:e} {y:e}: {g:e}");
    // mathematical cross-checks that do not go through the same std function
    if x.abs() < 1e5 {
        let (s, c) = (Sin::sin(x), Cos::cos(x));
        ensure!((s * s + c * c - 1.0).abs() < 1e-14, "sin^2 + cos^2 at {x:e}: {s:e} {c:e}");
        let d = harness::dd::DD::sin_cos(x);
        ensure!((s - d.0.f()).abs() < 1e-15 && (c - d.1.f()).abs() < 1e-15, "sin/cos at {x:e}: {s:e} {c:e}");
    }
    if x.abs() < 700.0 {
        let e = harness::dd::DD::from(x).exp().f();
        let g = Exp::exp(x);
        ensure!((g - e).abs() <= 1e-15 * e, "exp at {x:e}: {g:e}, want {e:e}");
        let (sh, ch) = (Sinh::sinh(x), Cosh::cosh(x));
        let w = harness::dd::DD::from(x);
        ensure!((sh - w.sinh().f()).abs() <= 2e-15 * sh.abs() + 1e-307, "sinh at {x:e}: {sh:e}");
        ensure!((ch - w.cosh().f()).abs() <= 2e-15 * ch, "cosh at {x:e}: {ch:e}");
    }
    Ok(())
}

/// Exact helpers on every integer type.
fn ints(r: &mut Rng, l: &mut Log) -> Res {
    l.count("ints", 1);
    macro_rules! conj { ($($t:ty),*) => {$({
        let x = match r.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, _ => ((r.u64() as u128) << 64 | r.u64() as u128) as $t };
        l.case(key_of(&(stringify!($t), x)), true);
        ensure!(Conj::conj(x) == x, "conj over {}: {x} -> {}", stringify!($t), Conj::conj(x));
    })*}}
    conj!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
    macro_rules! mul { ($($t:ty),*) => {$({
        let (x, y) = match r.below(4) {
            0 => (<$t>::MAX, 1),
            1 => (<$t>::MIN, 1),
            2 => (1, ((r.u64() as u128) << 64 | r.u64() as u128) as $t),
            _ => { let m = <$t>::BITS / 2 - 1; ((r.u64() as $t) & ((1 << m) - 1), (r.u64() as $t) & ((1 << m) - 1)) }
        };
        ensure!(MulRefs::mul_refs(&x, &y) == x * y, "mul_refs over {}: {x} {y}", stringify!($t));
        let (a, b): ($t, $t) = (((r.u64() as u128) << 64 | r.u64() as u128) as $t, ((r.u64() as $t) & 0x7f) | 1);
        ensure!(DivRefs::div_refs(&a, &b) == a / b, "div_refs over {}: {a} {b}", stringify!($t));
    })*}}
    mul!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    macro_rules! neutral { ($($t:ty),*) => {$({
        let x = match r.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, _ => r.u64() as $t };
        let (z, o) = (<$t as Zero>::zero(), <$t as One>::one());
        ensure!(x + z == x && z + x == x && x * o == x && o * x == x && z == 0 as $t && o == 1 as $t,
            "zero/one over {}: {z} {o} at {x}", stringify!($t));
    })*}}
    neutral!(i8, i16, i32, i64, i128, isize, f32, f64);
    Ok(())
}

fn main() {
    let run = Run::new(
        "C09",
        "a case is an argument (pair) of one scalar type at which every function and helper is compared \
         with the reference; non-trivial if the first argument is finite and not zero",
    );
    for (k, n) in [("f32", 100_000), ("f64", 100_000), ("nan", 1000), ("infinite", 1000), ("zero", 1000), ("subnormal", 300), ("ints", 10_000)] {
        run.require(k, n);
    }
    run.cases("f32", run.n(200_000, 1_000_000), case32);
    run.cases("f64", run.n(200_000, 1_000_000), case64);
    run.cases("ints", run.n(4000, 100_000), ints);
    // all f32 values (every 17th bit pattern in the quick tier)
    let step: u64 = if run.thorough { 1 } else { 17 };
    let off = if step == 1 { 0 } else { run.seed % step };
    let chunks = 4096u64;
    run.cases_i("f32-sweep", chunks, |i, _, l| {
        let per = (1u64 << 32) / chunks;
        let mut b = i * per;
        b += (step - (b + off) % step) % step;
        while b < (i + 1) * per {
            unary32(f32::from_bits(b as u32))?;
            l.evals += 1;
            l.count("swept_f32_values", 1);
            b += step;
        }
        l.case(key_of(&("sweep", i)), true);
        Ok(())
    });
    run.finish()
}
