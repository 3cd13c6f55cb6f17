//! C23: optimisation is a function of its arguments and the generator's stream.
use harness::de::*;
use harness::ensure;
use harness::run::{caught, mix, Log, Res, Rng, Run};
use rand::{rngs::StdRng, RngCore, SeedableRng};
use std::sync::Barrier;

type Event = (Vec<(u64, u64)>, Vec<(u64, u64)>, bool);

/// everything observable about one run: comparisons, result, the generator afterwards
fn history<T: Coord, const N: usize, R: rand::Rng + Clone>(p: &Params<T, N>, rng: &R, kind: usize, seed: u64) -> (Vec<Event>, Vec<u64>, R) {
    let mut g = rng.clone();
    let mut coin = Rng::new(seed);
    let before = p.bounds.map(|(a, b)| (a.id(), b.id()));
    let t = observe(p, &mut g, |a, b| {
        if kind == OBJECTIVES {
            coin.chance(1, 3)
        } else {
            objective(kind, seed, &p.bounds, a) < objective(kind, seed, &p.bounds, b)
        }
    });
    assert_eq!(before, p.bounds.map(|(a, b)| (a.id(), b.id())), "the boxes were modified");
    let vals = |x: &[T; N]| x.iter().map(|c| (c.val().to_bits(), 0)).collect::<Vec<_>>();
    (
        t.calls.iter().map(|c| (vals(&c.a), vals(&c.b), c.ans)).collect(),
        t.result.iter().map(|c| c.val().to_bits()).collect(),
        g,
    )
}

fn compare<R: RngCore + Clone>(d: &str, how: &str, a: &(Vec<Event>, Vec<u64>, R), b: &(Vec<Event>, Vec<u64>, R)) -> Res {
    let k = a.0.iter().zip(&b.0).position(|(x, y)| x != y);
    if let Some(k) = k {
        return Err(format!("{d}: {how}, comparison {k} differs: {:?} against {:?}", show(&a.0[k]), show(&b.0[k])));
    }
    ensure!(a.0.len() == b.0.len(), "{d}: {how}, {} comparisons against {}", a.0.len(), b.0.len());
    ensure!(a.1 == b.1, "{d}: {how}, the results differ");
    let (mut g, mut h) = (a.2.clone(), b.2.clone());
    for _ in 0..40 {
        ensure!(g.next_u32() == h.next_u32(), "{d}: {how}, the generators are left in different states");
    }
    Ok(())
}
fn show(e: &Event) -> (Vec<f64>, Vec<f64>, bool) {
    (e.0.iter().map(|x| f64::from_bits(x.0)).collect(), e.1.iter().map(|x| f64::from_bits(x.0)).collect(), e.2)
}

fn disturb(r: &mut Rng) {
    // history: other optimisations, rejected ones, interrupted ones
    let p = Params::<f32, 2>::gen(r, 20, 50);
    match r.below(4) {
        0 => {
            observe(&p, &mut Source::new(r.u64(), 0), |_, _| true);
        }
        1 => {
            let _ = caught(|| observe(&Params { p: 3, ..p }, &mut Source::new(1, 0), |_, _| true));
        }
        2 => {
            let mut k = 0;
            let _ = caught(|| {
                observe(&p, &mut Source::new(2, 0), |_, _| {
                    k += 1;
                    assert!(k < 4, "interrupted");
                    true
                })
            });
        }
        _ => {
            let _: u32 = rand::random();
            magnesia::optimize::test_functions::ackley(1.0, 2.0);
        }
    }
}

fn repeat<T: Coord, const N: usize, R: rand::Rng + Clone>(make: impl Fn(u64) -> R) -> impl Fn(&mut Rng, &mut Log) -> Res {
    move |r, l| {
        let mut p = Params::<T, N>::gen(r, 40, 200);
        if r.chance(1, 20) {
            p.p = r.pick(&[64, 129, 256, 257, 600]);
            p.iters = r.pick(&[100, 700, 5000]);
            l.count("large", 1);
        }
        let (kind, seed, gs) = (r.below(OBJECTIVES + 1), r.u64(), r.u64());
        let kind = if T::NAME == "Gene" && matches!(kind, 3 | 4 | 9) { 0 } else { kind }; // symbols are fresh in every run
        let g = make(gs);
        let d = format!("{} N={N} P={} iters={} cr={} w={} objective={kind}", T::NAME, p.p, p.iters, p.cr, p.w.val());
        let first = history(&p, &g, kind, seed);
        for _ in 0..2 {
            disturb(r);
            let again = history(&p, &g, kind, seed);
            compare(&d, "run again", &first, &again)?;
            l.count("repetitions", 1);
        }
        // another seed: another run
        let (lo, hi) = (p.bounds[0].0.val(), p.bounds[0].1.val());
        let other = history(&p, &make(gs ^ 0x9999), kind, seed);
        if hi - lo > 1e-3 * lo.abs() && T::NAME != "Gene" {
            let eq = first.0.iter().zip(&other.0).filter(|(a, b)| a.0 == b.0 && a.1 == b.1).count();
            ensure!(eq < first.0.len(), "{d}: {eq} comparisons, all the same for two different generators");
            l.count("other seeds", 1);
        }
        // the generator moved
        let (mut a, mut b) = (first.2.clone(), g.clone());
        ensure!((0..8).any(|_| a.next_u64() != b.next_u64()), "{d}: the generator was not used");
        l.count("events", first.0.len() as u64);
        l.case(mix(seed), p.iters > 0);
        l.sample(|| format!("{d}: {} identical events three times", first.0.len()));
        Ok(())
    }
}

/// the same arguments in several threads at once
fn threads(r: &mut Rng, l: &mut Log) -> Res {
    let p = Params::<f64, 3>::gen(r, 30, 300);
    let (kind, seed, gs) = (r.below(OBJECTIVES), r.u64(), r.u64());
    let g = Source::new(gs, 0);
    let d = format!("f64 N=3 P={} iters={} cr={} w={} objective={kind}, threads", p.p, p.iters, p.cr, p.w);
    let first = history(&p, &g, kind, seed);
    let start = Barrier::new(4);
    let all: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|_| {
                s.spawn(|| {
                    start.wait();
                    history(&p, &g, kind, seed)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for h in all {
        let h = h.map_err(|_| format!("{d}: panicked in a thread"))?;
        compare(&d, "run concurrently", &first, &h)?;
    }
    l.count("threads", 4);
    l.case(mix(seed), p.iters > 0);
    Ok(())
}

/// words drawn per trial, on average over a long run
fn draws<const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut p = Params::<f64, N>::gen(r, 60, 1);
    p.iters = 5000;
    let mut src = Source::new(r.u64(), 0);
    src.budget = p.draw_budget();
    observe(&p, &mut src, |a, b| a[0] < b[0]);
    let per = src.draws as f64 / (p.iters + p.p * N) as f64;
    let limit = 60.0 + 8.0 * N as f64;
    ensure!(per <= limit, "N={N} P={}: {per} words drawn per trial, expected far below {limit}", p.p);
    l.max("words per 100 trials", (per * 100.0) as u64);
    l.case(r.u64(), true);
    Ok(())
}

fn main() {
    let run = Run::new("C23", "an optimisation with at least one trial that was repeated and compared event by event");
    let n = run.n(60, 1500);
    run.cases("f64-1", n, repeat::<f64, 1, _>(|s| Source::new(s, 0)));
    run.cases("f64-3", n, repeat::<f64, 3, _>(|s| Source::new(s, (s % 4) as u8)));
    run.cases("f32-2", n, repeat::<f32, 2, _>(|s| Source::new(s, 0)));
    run.cases("gene-2", n, repeat::<Gene, 2, _>(|s| Source::new(s, 0)));
    run.cases("f64-40", n / 4, repeat::<f64, 40, _>(|s| Source::new(s, 0)));
    run.cases("std-f64-4", n, repeat::<f64, 4, _>(StdRng::seed_from_u64));
    run.cases("std-f32-2", n, repeat::<f32, 2, _>(StdRng::seed_from_u64));
    run.cases("threads", run.n(20, 400), threads);
    run.cases("draws-1", run.n(4, 40), draws::<1>);
    run.cases("draws-6", run.n(4, 40), draws::<6>);
    run.require("repetitions", 1000);
    run.require("other seeds", 100);
    run.require("threads", 100);
    run.finish()
}
