//! C22: initial candidates fill the box; parameters are validated.
use harness::de::*;
use harness::ensure;
use harness::run::{caught, Log, Res, Rng, Run};
use std::cell::Cell;
use std::collections::HashSet;

fn members<const N: usize>(p: &Params<Gene, N>, src: &mut Source) -> (Vec<[Gene; N]>, usize) {
    // nothing is replaced: every candidate that was drawn shows up
    let t = observe(p, src, |_, _| false);
    let (mut out, mut seen) = (vec![], HashSet::new());
    for c in &t.calls {
        for x in [&c.a, &c.b] {
            if x.iter().all(|g| g.drawn) && seen.insert(ids(x)) {
                out.push(*x);
            }
        }
    }
    (out, t.calls.len())
}

fn boxes<const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut p = Params::<Gene, N>::gen(r, 60, 100);
    if N <= 3 && r.chance(1, 600) {
        p.p = r.huge();
        l.count("huge populations", 1);
    } else if r.chance(1, 25) {
        p.p = r.pick(&[127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 3000]);
    }
    // disjoint boxes tell coordinates apart
    if r.chance(2, 3) {
        for n in 0..N {
            let lo = 10.0 * ((n * 7) % N) as f64 - 3.0;
            p.bounds[n] = (Gene::of(lo), Gene::of(lo + [4.0, 1e-3, 9.0, f64::EPSILON * 1024.0][r.below(4)]));
        }
    }
    if r.chance(1, 6) {
        let n = r.below(N);
        let lo = p.bounds[n].0.v;
        p.bounds[n].1 = Gene::of(lo.next_up()); // one value only
    }
    let mut src = Source::new(r.u64(), r.below(Source::MODES as usize) as u8);
    src.budget = p.draw_budget();
    let d = format!("N={N} P={} iters={} box={:?}", p.p, p.iters, p.bounds.map(|b| (b.0.v, b.1.v)));
    let (m, calls) = members(&p, &mut src);
    // drawn coordinates are all new symbols
    let mut symbols = HashSet::new();
    for x in &m {
        for (n, g) in x.iter().enumerate() {
            let (lo, hi) = (p.bounds[n].0.v, p.bounds[n].1.v);
            ensure!(lo <= g.v && g.v < hi, "{d}: coordinate {n} of the initial member {x:?} is outside [{lo}, {hi})");
            ensure!(symbols.insert(g.h), "{d}: two coordinates of the initial members come from the same draw ({g:?})");
            l.count("coordinates", 1);
            l.count("at the low end", (g.v == lo) as u64);
        }
    }
    ensure!(m.len() == p.p, "{d}: {} initial members in {calls} comparisons, {} were asked for", m.len(), p.p);
    l.max("population", p.p as u64);
    l.case(r.u64(), true);
    l.sample(|| format!("{d}: {} members, e.g. {:?}", m.len(), m[0].map(|g| g.v)));
    Ok(())
}

/// plain floating point: in the box, everywhere in it, coordinates independent
fn spread<T: Coord, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let p = Params::<T, N> {
        bounds: std::array::from_fn(|_| loop {
            let (a, b) = gen_box::<T>(r);
            if b.val() - a.val() > 0.05 * a.val().abs() {
                break (a, b);
            }
        }),
        p: 4000 + r.below(2),
        cr: 0.5,
        w: T::of64(0.5),
        iters: 0,
    };
    let mut src = Source::new(r.u64(), 0);
    src.budget = p.draw_budget();
    let t = observe(&p, &mut src, |_, _| false);
    let d = format!("{} N={N} P={} box={:?}", T::NAME, p.p, p.bounds.map(|b| (b.0.val(), b.1.val())));
    let (mut m, mut seen) = (vec![], HashSet::new());
    for c in &t.calls {
        for x in [&c.a, &c.b] {
            if seen.insert(ids(x)) {
                m.push(*x);
            }
        }
    }
    ensure!(m.len() <= p.p, "{d}: {} initial members", m.len());
    let mut unit: Vec<[f64; N]> = vec![];
    for x in &m {
        let mut u = [0.0; N];
        for n in 0..N {
            let (lo, hi) = (p.bounds[n].0.val(), p.bounds[n].1.val());
            ensure!(x[n].val() >= lo && x[n].val() < hi, "{d}: coordinate {n} of {x:?} is outside [{lo}, {hi})");
            u[n] = (x[n].val() - lo) / (hi - lo);
        }
        unit.push(u);
    }
    let cnt = unit.len() as f64;
    // few coincidences among that many draws (f32 has fewer values)
    ensure!(cnt >= 0.9 * p.p as f64, "{d}: only {} of {} initial members are different", unit.len(), p.p);
    let bins = 16;
    for n in 0..N {
        let mut h = vec![0u64; bins];
        for u in &unit {
            h[((u[n] * bins as f64) as usize).min(bins - 1)] += 1;
        }
        let mean = cnt / bins as f64;
        for (b, &c) in h.iter().enumerate() {
            ensure!((c as f64 - mean).abs() <= 9.0 * mean.sqrt(), "{d}: {c} of {cnt} members have coordinate {n} in part {b} of {bins} of the range, {mean:.0} expected");
        }
    }
    // pairs of coordinates: every quadrant of the plane is filled alike
    for a in 0..N {
        for b in 0..a {
            let both = unit.iter().filter(|u| (u[a] < 0.5) == (u[b] < 0.5)).count() as f64;
            ensure!((both - cnt / 2.0).abs() <= 9.0 * cnt.sqrt() / 2.0, "{d}: coordinates {b} and {a} are in the same half in {both} of {cnt} members");
        }
    }
    l.count("spread members", unit.len() as u64);
    l.case(r.u64(), true);
    l.sample(|| format!("{d}: {cnt} members"));
    Ok(())
}

/// accepted?, comparisons made before the verdict
fn attempt<T: Coord>(p: usize, cr: f32, w: T, iters: usize, seed: u64) -> (Result<(), String>, u64) {
    let n = Cell::new(0);
    let mut src = Source::new(seed, 0);
    src.budget = 10_000_000;
    let res = caught(|| {
        magnesia::optimize::differential_evolution(&[(T::of64(-1.0), T::of64(2.0)); 3], p, cr, w, iters, &mut src, |a, b| {
            n.set(n.get() + 1);
            a[0] < b[0]
        });
    });
    (res, n.get())
}

fn validation<T: Coord>(up: fn(f64) -> f64, tiny: f64) -> impl Fn(&mut Rng, &mut Log) -> Res {
    move |r, l| {
        let good_p = |r: &mut Rng| r.pick(&[4usize, 5, 6, 7, 8, 33, 100]);
        let good_cr = |r: &mut Rng| {
            let u = r.unit() as f32;
            r.pick(&[0.0f32, -0.0, 1.0, 0.5, f32::from_bits(1), f32::MIN_POSITIVE, 1.0 - f32::EPSILON / 2.0, u])
        };
        let good_w = |r: &mut Rng| {
            let u = 2.0 * r.unit();
            r.pick(&[0.0, -0.0, 2.0, 1.0, tiny, -up(-2.0), u])
        };
        let bad_p = |r: &mut Rng| r.below(4);
        let bad_cr = |r: &mut Rng| {
            let u = r.unit() as f32;
            r.pick(&[
                f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0 + f32::EPSILON, -f32::from_bits(1), -f32::MIN_POSITIVE,
                2.0, -1.0, -0.1, 1.1, f32::MAX, f32::MIN, 1.0 + f32::EPSILON + u, -f32::EPSILON - u, 100.0,
            ])
        };
        let bad_w = |r: &mut Rng| {
            let u = r.unit();
            r.pick(&[
                f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, up(2.0), -tiny, -1.0, -0.5, 3.0, 1e30, -1e30, up(2.0) + u, -tiny - u, 20.0,
            ])
        };
        let iters = r.pick(&[0usize, 0, 1, 5, 50]);
        let kind = r.below(12);
        let p = if matches!(kind, 0 | 3 | 4 | 6 | 10) { bad_p(r) } else { good_p(r) };
        let cr = if matches!(kind, 1 | 3 | 5 | 6 | 7) { bad_cr(r) } else { good_cr(r) };
        let w = if matches!(kind, 2 | 4 | 5 | 6 | 8) { bad_w(r) } else { good_w(r) };
        let wt = T::of64(w);
        let bad = matches!(kind, 0..=8 | 10);
        let (res, n) = attempt::<T>(p, cr, wt, iters, r.u64());
        let d = format!("{} population {p}, crossover probability {cr}, differential weight {w:?}, {iters} trials", T::NAME);
        if bad {
            ensure!(res.is_err(), "{d}: accepted");
            ensure!(n == 0, "{d}: rejected only after {n} comparisons");
            l.count("rejected", 1);
        } else {
            ensure!(res.is_ok(), "{d}: {}", res.unwrap_err());
            ensure!(n > 0, "{d}: nothing was compared");
            l.count("accepted", 1);
        }
        l.case(harness::run::key_of(&(p, cr.to_bits(), w.to_bits(), iters)), true);
        l.sample(|| format!("{d}: {}", if bad { "rejected" } else { "accepted" }));
        Ok(())
    }
}

fn main() {
    let run = Run::new("C22", "an optimisation whose initial members were all identified, or a distinct parameter combination");
    let n = run.n(150, 3000);
    run.cases("box-1", n, boxes::<1>);
    run.cases("box-2", n, boxes::<2>);
    run.cases("box-3", n, boxes::<3>);
    run.cases("box-6", n, boxes::<6>);
    run.cases("box-17", n / 3, boxes::<17>);
    run.cases("box-40", n / 10, boxes::<40>);
    run.cases("box-64", n / 10, boxes::<64>);
    let m = run.n(6, 150);
    run.cases("spread-f64-1", m, spread::<f64, 1>);
    run.cases("spread-f64-2", m, spread::<f64, 2>);
    run.cases("spread-f64-5", m, spread::<f64, 5>);
    run.cases("spread-f32-2", m, spread::<f32, 2>);
    run.cases("spread-f32-3", m, spread::<f32, 3>);
    let v = run.n(300, 10000);
    let up32: fn(f64) -> f64 = |x| (x as f32).next_up() as f64;
    run.cases("validation-f32", v, validation::<f32>(up32, f32::from_bits(1) as f64));
    run.cases("validation-f64", v, validation::<f64>(f64::next_up, f64::from_bits(1)));
    run.cases("validation-gene", v, validation::<Gene>(f64::next_up, f64::from_bits(1)));
    run.require("huge populations", 5);
    run.require("rejected", 1000);
    run.require("accepted", 300);
    run.require("at the low end", 100);
    run.finish()
}
