//! C20: the result of the optimiser is a candidate no examined candidate beats.
use harness::de::*;
use harness::ensure;
use harness::run::{mix, Log, Res, Rng, Run};
use std::cmp::Ordering;
use std::collections::HashSet;

fn consistent<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let max_p = if r.chance(1, 20) { 300 } else { 40 };
    let p = Params::<T, N>::gen(r, max_p, 400);
    judged(r, l, p)
}

/// populations and budgets beyond what a small counter or a fixed buffer holds
fn large<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut p = Params::<T, N>::gen(r, 40, 400);
    if r.chance(1, 6) {
        p.p = r.huge();
        // (drawing from very narrow boxes may take its time)
        for b in p.bounds.iter_mut() {
            while b.1.val() - b.0.val() <= 0.05 * b.0.val().abs() {
                *b = gen_box(r);
            }
        }
        p.iters = r.pick(&[0, 1, 100, p.p / 2, p.p, p.p + 1]);
        l.count("huge", 1);
    } else if r.chance(1, 2) {
        p.p = r.pick(&[127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 2047, 4097]) + r.below(2);
        p.iters = r.pick(&[0, 1, p.p / 2, p.p, p.p + 1, 3 * p.p]);
    } else {
        p.iters = r.pick(&[4095, 10_000, 32_769, 65_537, 70_000]) + r.below(5);
    }
    l.count("large", 1);
    l.max("members", p.p as u64);
    l.max("trials", p.iters as u64);
    judged(r, l, p)
}

fn judged<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log, p: Params<T, N>) -> Res {
    let (kind, seed) = (r.below(OBJECTIVES), r.u64());
    let weak = r.chance(1, 8);
    let mode = r.below(Source::MODES as usize) as u8;
    let mut src = Source::new(r.u64(), mode);
    src.budget = p.draw_budget();
    let key = |x: &[T; N]| objective(kind, seed, &p.bounds, x);
    let t = observe(&p, &mut src, |a, b| match key(a).total_cmp(&key(b)) {
        Ordering::Less => true,
        Ordering::Equal => weak,
        Ordering::Greater => false,
    });
    let d = format!("{} N={N} P={} iters={} cr={} w={:?} objective={kind} weak={weak} stream={mode}", T::NAME, p.p, p.iters, p.cr, p.w.val());
    verdict(&t, &d)?;
    let k = key(&t.result);
    let mut best = true;
    for (i, c) in t.calls.iter().enumerate() {
        for (which, x) in [("left", &c.a), ("right", &c.b)] {
            if key(x).total_cmp(&k) == Ordering::Less {
                best = false;
                ensure!(best, "{d}: candidate {x:?} ({which} of comparison {i} of {}) has objective {} but the result {:?} has {k}", t.calls.len(), key(x), t.result);
            }
        }
    }
    let keys: HashSet<u64> = t.calls.iter().map(|c| key(&c.a).to_bits()).collect();
    l.count("candidates", 2 * t.calls.len() as u64);
    l.count(T::NAME, 1);
    l.count(&format!("objective {kind}"), 1);
    if p.p % 2 == 1 {
        l.count("odd population", 1);
    }
    if p.iters < p.p {
        l.count("fewer trials than members", 1);
    }
    l.max("population", p.p as u64);
    l.case(mix(seed ^ p.p as u64), keys.len() > 1);
    l.sample(|| format!("{d}: {} comparisons, {} objective values, result {k}", t.calls.len(), keys.len()));
    Ok(())
}

fn verdict<T: Coord, const N: usize>(t: &Trace<T, N>, d: &str) -> Res {
    let id = ids(&t.result);
    ensure!(
        t.calls.iter().any(|c| ids(&c.a) == id || ids(&c.b) == id),
        "{d}: the result {:?} is none of the candidates compared ({} comparisons)", t.result, t.calls.len()
    );
    Ok(())
}

fn arbitrary<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let p = Params::<T, N>::gen(r, 40, 200);
    let mode = r.below(Source::MODES as usize) as u8;
    let mut src = Source::new(r.u64(), mode);
    src.budget = p.draw_budget();
    let kind = r.below(8);
    let mut coin = Rng::new(r.u64());
    let mut n = 0u64;
    let t = observe(&p, &mut src, |a, b| {
        n += 1;
        match kind {
            0 => true,
            1 => false,
            2 => coin.chance(1, 2),
            3 => n % 2 == 0,
            4 => a[0] < b[0] || n % 3 == 0,
            5 => f64::NAN < b[0].val(),
            6 => (mix(a[0].id().0) ^ mix(b[0].id().0)) & 1 == 1, // not transitive
            _ => coin.chance(1, 10),
        }
    });
    let d = format!("{} N={N} P={} iters={} cr={} w={:?} comparator={kind} stream={mode}", T::NAME, p.p, p.iters, p.cr, p.w.val());
    verdict(&t, &d)?;
    l.count(&format!("comparator {kind}"), 1);
    l.case(r.u64(), p.iters > 0);
    l.sample(|| format!("{d}: {} comparisons", t.calls.len()));
    Ok(())
}

/// every population size once, with the best candidate in every place
fn placed(i: u64, r: &mut Rng, l: &mut Log) -> Res {
    let p = 4 + (i / 4) as usize % 70;
    let pr = Params::<Gene, 2> {
        bounds: [gen_box(r), gen_box(r)],
        p,
        cr: 0.5,
        w: Gene::of(0.7),
        iters: if i % 4 == 0 { 0 } else { r.below(3 * p) },
    };
    // first pass: learn the candidates; then rerun for each of them as the only good one
    let seed = r.u64();
    let run = |good: Option<u64>| {
        let mut src = Source::new(seed, 0);
        src.budget = pr.draw_budget();
        let key = |x: &[Gene; 2]| if Some(x[0].v.to_bits() ^ x[1].v.to_bits()) == good { 0 } else { 1 };
        let t = observe(&pr, &mut src, |a, b| key(a) < key(b));
        let seen = t.calls.iter().any(|c| key(&c.a) == 0 || key(&c.b) == 0);
        (key(&t.result) == 0, seen, t)
    };
    let (_, _, t) = run(None);
    let all: HashSet<u64> = t.calls.iter().flat_map(|c| [&c.a, &c.b]).map(|x| x[0].v.to_bits() ^ x[1].v.to_bits()).collect();
    let mut all: Vec<_> = all.into_iter().collect();
    all.sort();
    let mut hit = 0;
    for g in all {
        let (won, seen, _) = run(Some(g));
        ensure!(won || !seen, "P={p} iters={}: the only good candidate was compared but not returned", pr.iters);
        hit += seen as u64;
        l.case(mix(g), seen);
    }
    l.count("placements", hit);
    Ok(())
}

fn main() {
    let run = Run::new("C20", "an optimisation whose comparator log holds more than one objective value (or, for arbitrary comparators, at least one trial; for placements, one candidate that is the unique best)");
    let n = run.n(400, 8000);
    macro_rules! all { ($($t:ident $n:literal),*) => { $(
        run.cases(concat!("consistent-", stringify!($t), $n), n, consistent::<$t, $n>);
        run.cases(concat!("arbitrary-", stringify!($t), $n), n / 4, arbitrary::<$t, $n>);
    )* } }
    all!(Gene 1, Gene 2, Gene 3, Gene 7, f64 1, f64 2, f64 4, f64 10, f32 1, f32 2, f32 3, f32 5);
    run.cases_i("placed", run.n(28, 280), placed);
    let m = run.n(2, 60);
    run.cases("large-f64-2", m, large::<f64, 2>);
    run.cases("large-f32-3", m, large::<f32, 3>);
    run.cases("large-f64-33", m, large::<f64, 33>);
    run.cases("large-gene-1", m, large::<Gene, 1>);
    run.cases("consistent-f64-64", n / 10, consistent::<f64, 64>);
    run.require("large", 100);
    run.require("huge", 20);
    run.require("odd population", 100);
    run.require("fewer trials than members", 100);
    run.require("placements", 1000);
    run.finish()
}
