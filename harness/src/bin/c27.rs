//! C27: differential evolution finds the optimum of smooth unimodal objectives.
use harness::de::*;
use harness::ensure;
use harness::run::{Log, Res, Rng, Run};
use magnesia::optimize::{differential_evolution, test_functions::ackley};

const BATCH: usize = 25;

/// one batch; practically every run must come close
fn batch<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut missed = vec![];
    let mut worst = 0.0f64;
    for _ in 0..BATCH {
        let bounds: [(T, T); N] = std::array::from_fn(|_| loop {
            let (a, b) = gen_box::<T>(r);
            if b.val() - a.val() > 0.05 * a.val().abs() {
                break (a, b);
            }
        });
        let width: [f64; N] = std::array::from_fn(|n| bounds[n].1.val() - bounds[n].0.val());
        let opt: [f64; N] = std::array::from_fn(|n| bounds[n].0.val() + width[n] * (0.1 + 0.8 * r.unit()));
        let scale: [f64; N] = std::array::from_fn(|_| r.pick(&[1.0, 2.0, 5.0, 10.0]));
        let (kind, tilt) = (r.below(4), (r.unit() - 0.5) * 0.6);
        let f = |x: &[T; N]| {
            let mut q = 0.0;
            let mut prev = 0.0;
            for n in 0..N {
                let d = (x[n].val() - opt[n]) / width[n];
                let e = d + tilt * prev;
                q += scale[n] * e * e;
                prev = d;
            }
            match kind {
                0 => q,
                1 => (1.0 + q).ln(),
                2 => q + q * q,
                _ => (1.0 + q).sqrt() - 1.0,
            }
        };
        let p = 20 + r.below(21);
        let cr = 0.5 + 0.5 * r.unit() as f32;
        let w = T::of64(0.5 + 0.4 * r.unit());
        let iters = 500 * p;
        let mut src = Source::new(r.u64(), 0);
        let x = differential_evolution(&bounds, p, cr, w, iters, &mut src, |a, b| f(a) < f(b));
        let dist = (0..N).map(|n| ((x[n].val() - opt[n]) / width[n]).abs()).fold(0.0, f64::max);
        worst = worst.max(dist);
        if !(dist < 0.02) {
            missed.push(format!("P={p} cr={cr} w={} objective={kind} box={:?} optimum={opt:?} result={x:?}", w.val(), bounds.map(|b| (b.0.val(), b.1.val()))));
        }
        l.count("optimisations", 1);
        l.case(r.u64(), true);
    }
    l.max(&format!("worst distance in 1e-9 widths {}", T::NAME), (worst * 1e9) as u64);
    l.count("missed", missed.len() as u64);
    l.sample(|| format!("{} N={N}: {BATCH} runs, worst distance {worst:e} of the width", T::NAME));
    ensure!(missed.len() * 8 <= BATCH, "{} N={N}: {} of {BATCH} optimisations end far from the optimum, e.g. {}", T::NAME, missed.len(), missed[0]);
    Ok(())
}

fn ackleys(r: &mut Rng, l: &mut Log) -> Res {
    let mut missed = vec![];
    for _ in 0..BATCH {
        let (lo, hi) = (-3.0 - 2.0 * r.unit() as f32, 3.0 + 2.0 * r.unit() as f32);
        let mut src = Source::new(r.u64(), 0);
        let x = differential_evolution(&[(lo, hi); 2], 30, 0.9, 0.7, 6000, &mut src, |a, b| ackley(a[0], a[1]) < ackley(b[0], b[1]));
        if !(x[0].abs() < 0.05 && x[1].abs() < 0.05) {
            missed.push(x);
        }
        l.count("optimisations", 1);
        l.case(r.u64(), true);
    }
    l.count("missed", missed.len() as u64);
    ensure!(missed.len() * 4 <= BATCH, "Ackley: {} of {BATCH} optimisations end far from the origin: {missed:?}", missed.len());
    Ok(())
}

/// more trials from the same stream never give a worse result
fn monotone<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut p = Params::<T, N>::gen(r, 40, 1);
    let (kind, seed, gs) = (r.below(OBJECTIVES), r.u64(), r.u64());
    let mut budgets: Vec<usize> = (0..6).map(|_| r.below(400)).collect();
    budgets.push(0);
    budgets.sort();
    let mut last = f64::INFINITY;
    let mut seen = 0;
    for b in budgets {
        p.iters = b;
        let key = |x: &[T; N]| objective(kind, seed, &p.bounds, x);
        let mut src = Source::new(gs, 0);
        src.budget = p.draw_budget();
        let t = observe(&p, &mut src, |a, b| key(a).total_cmp(&key(b)).is_lt());
        let k = key(&t.result);
        ensure!(
            k.total_cmp(&last).is_le(),
            "{} N={N} P={} cr={} w={} objective={kind}: {b} trials give {k}, fewer gave {last}", T::NAME, p.p, p.cr, p.w.val()
        );
        seen += (k < last) as u64;
        last = k;
    }
    l.count("improvements", seen);
    l.case(gs, seen > 1);
    Ok(())
}

fn main() {
    let run = Run::new("C27", "an optimisation run to its budget (or, for growing budgets, one whose result improved)");
    let n = run.n(4, 150);
    run.cases("f64-1", n, batch::<f64, 1>);
    run.cases("f64-2", n, batch::<f64, 2>);
    run.cases("f64-3", n, batch::<f64, 3>);
    run.cases("f64-4", n, batch::<f64, 4>);
    run.cases("f32-1", n, batch::<f32, 1>);
    run.cases("f32-2", n, batch::<f32, 2>);
    run.cases("f32-3", n, batch::<f32, 3>);
    run.cases("f32-4", n, batch::<f32, 4>);
    run.cases("ackley", n, ackleys);
    let m = run.n(60, 3000);
    run.cases("monotone-f64", m, monotone::<f64, 2>);
    run.cases("monotone-f32", m, monotone::<f32, 3>);
    run.require("optimisations", 1000);
    run.require("improvements", 500);
    run.finish()
}
