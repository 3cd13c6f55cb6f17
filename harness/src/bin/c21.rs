//! C21: every step of the optimiser is a legal differential-evolution trial.
//! The monitor replays the comparator log against the trace specification; the
//! coordinates carry the expression that produced them.
use harness::de::*;
use harness::elems::{El, Zp};
use harness::ensure;
use harness::run::{mix, Log, Res, Rng, Run};
use magnesia::optimize::differential_evolution;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use std::collections::{BTreeSet, HashMap, HashSet};

struct Step {
    slot: usize,
    /// coordinates that differ from the challenged member's
    changed: usize,
    /// coordinates that are a + (b - c) * w (the same triple may have produced
    /// the member's own coordinate before)
    mutated: Vec<usize>,
    /// members by number; a number >= P names a member whose slot is not known
    roles: [usize; 3],
}

fn explain<const N: usize>(p: &Params<Gene, N>, t: &Trace<Gene, N>, d: &str) -> Result<Vec<Step>, String> {
    ensure!(t.calls.len() >= p.iters, "{d}: {} comparisons for {} trials", t.calls.len(), p.iters);
    let (trials, rest) = t.calls.split_at(p.iters);
    // the members: slots challenged in the first round show their initial value
    let mut slots: Vec<Option<[Gene; N]>> = vec![None; p.p];
    let fin = {
        let mut s: Vec<Option<[Gene; N]>> = vec![None; p.p];
        for (i, c) in trials.iter().enumerate() {
            let k = i % p.p;
            if s[k].is_none() {
                s[k] = Some(c.b);
            }
            if c.ans {
                s[k] = Some(c.a);
            }
        }
        s
    };
    let known: HashSet<_> = fin.iter().flatten().map(ids).collect();
    let mut hidden: Vec<[Gene; N]> = vec![];
    let mut seen_hidden = HashSet::new();
    let mut seen_known = HashSet::new();
    for c in rest {
        for x in [&c.a, &c.b] {
            if known.contains(&ids(x)) {
                seen_known.insert(ids(x));
            } else if seen_hidden.insert(ids(x)) {
                ensure!(x.iter().all(|g| g.drawn), "{d}: after {} trials {x:?} is compared, which is no member of the population", p.iters);
                hidden.push(*x);
            }
        }
    }
    ensure!(
        seen_known.len() == known.len(),
        "{d}: {} of {} members left by the trials take no part in the selection of the result", known.len() - seen_known.len(), known.len()
    );
    ensure!(
        hidden.len() + fin.iter().flatten().count() == p.p,
        "{d}: the population has {} members, {} were asked for", hidden.len() + fin.iter().flatten().count(), p.p
    );
    for (i, c) in trials.iter().enumerate().take(p.p) {
        slots[i] = Some(c.b);
        ensure!(c.b.iter().all(|g| g.drawn), "{d}: trial {i} challenges {:?}, which is no initial member", c.b);
    }
    let mut out = vec![];
    for (ti, c) in trials.iter().enumerate() {
        let slot = ti % p.p;
        let me = slots[slot].unwrap();
        ensure!(
            ids(&me) == ids(&c.b),
            "{d}: trial {ti} challenges {:?}; member {slot} is {me:?} (replaced exactly if preferred)", c.b
        );
        let changed: Vec<usize> = (0..N).filter(|&n| c.a[n].id() != me[n].id()).collect();
        let pop: Vec<(usize, &[Gene; N])> = slots
            .iter()
            .enumerate()
            .filter_map(|(k, s)| s.as_ref().map(|s| (k, s)))
            .chain(hidden.iter().enumerate().map(|(k, s)| (p.p + k, s)))
            .filter(|(k, _)| *k != slot)
            .collect();
        // a + (b - c) * w on one coordinate, then on the other changed ones
        let mut found: Option<([usize; 3], Vec<usize>)> = None;
        for n0 in if changed.is_empty() { 0..N } else { changed[0]..changed[0] + 1 } {
        let mut diffs: HashMap<Zp, Vec<(usize, usize)>> = HashMap::new();
        for (bi, (_, b)) in pop.iter().enumerate() {
            for (ci, (_, cc)) in pop.iter().enumerate() {
                if bi != ci {
                    diffs.entry(b[n0].h.m_sub(&cc[n0].h).m_mul(&p.w.h)).or_default().push((bi, ci));
                }
            }
        }
        for (ai, (ak, a)) in pop.iter().enumerate() {
            if let Some(v) = diffs.get(&c.a[n0].h.m_sub(&a[n0].h)) {
                for &(bi, ci) in v {
                    if ai == bi || ai == ci {
                        continue;
                    }
                    let (b, cc) = (pop[bi].1, pop[ci].1);
                    let fits: Vec<usize> =
                        (0..N).filter(|&n| c.a[n].h == a[n].h.m_add(&b[n].h.m_sub(&cc[n].h).m_mul(&p.w.h))).collect();
                    if changed.iter().all(|n| fits.contains(n)) && found.as_ref().map_or(true, |f| fits.len() > f.1.len()) {
                        found = Some(([*ak, pop[bi].0, pop[ci].0], fits));
                    }
                }
            }
        }
        }
        let Some((roles, mutated)) = found else {
            return Err(format!(
                "{d}: trial {ti} = {:?} is not a + (b - c) * w with one triple of distinct members other than {slot} on the coordinates {changed:?} (w = {:?}, member {:?}, population {:?})",
                c.a, p.w, me, pop
            ));
        };
        out.push(Step { slot, changed: changed.len(), mutated, roles });
        if c.ans {
            slots[slot] = Some(c.a);
        }
    }
    Ok(out)
}

fn judge(kind: usize, seed: u64) -> impl FnMut(usize) -> bool {
    let mut coin = Rng::new(seed);
    move |_| match kind {
        0 => true,
        1 => false,
        2 => coin.chance(1, 2),
        _ => coin.chance(1, 8),
    }
}

fn one<const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let p = Params::<Gene, N>::gen(r, 30, 120);
    traced(r, l, p)
}

/// many members, or many trials of few members
fn large<const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    let mut p = Params::<Gene, N>::gen(r, 8, 120);
    if r.chance(1, 2) {
        p.p = r.pick(&[63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300]);
        p.iters = r.pick(&[p.p - 1, p.p, p.p + 3, p.p + 20]);
        l.count("trials in large populations", p.iters as u64);
    } else {
        p.p = 4 + r.below(5);
        p.iters = r.pick(&[10_000, 33_000, 66_000]) + r.below(10);
        l.count("trials in long runs", p.iters as u64);
    }
    l.max("population", p.p as u64);
    l.max("trials of one run", p.iters as u64);
    traced(r, l, p)
}

fn traced<const N: usize>(r: &mut Rng, l: &mut Log, p: Params<Gene, N>) -> Res {
    let mut src = Source::new(r.u64(), r.below(Source::MODES as usize) as u8);
    src.budget = p.draw_budget();
    let (kind, seed) = (r.below(8), r.u64());
    let mut j = judge(kind, seed);
    let mut n = 0;
    let t = observe(&p, &mut src, |a, b| {
        n += 1;
        if kind < 4 {
            j(n)
        } else {
            objective(kind - 4, seed, &p.bounds, a) < objective(kind - 4, seed, &p.bounds, b)
        }
    });
    let d = format!("N={N} P={} iters={} cr={} w={} judge={kind}", p.p, p.iters, p.cr, p.w.v);
    let steps = explain(&p, &t, &d)?;
    for (i, s) in steps.iter().enumerate() {
        if p.cr == 0.0 {
            ensure!(s.changed <= 1, "{d}: trial {i} mutates the coordinates {:?} at crossover probability 0", s.mutated);
        }
        if p.cr == 1.0 {
            ensure!(s.mutated.len() == N, "{d}: trial {i} mutates only the coordinates {:?} at crossover probability 1", s.mutated);
        }
    }
    l.count("trials", steps.len() as u64);
    l.count("replacements", t.calls[..p.iters].iter().filter(|c| c.ans).count() as u64);
    if p.cr == 0.0 {
        l.count("trials at probability 0", steps.len() as u64);
    }
    if p.cr == 1.0 {
        l.count("trials at probability 1", steps.len() as u64);
    }
    l.case(mix(seed), !steps.is_empty());
    l.sample(|| format!("{d}: {} trials explained, e.g. {:?}", steps.len(), steps.last().map(|s| (s.slot, &s.mutated, s.roles))));
    Ok(())
}

fn frequencies(steps: &[Step], dim: usize, cr: f32, d: &str) -> Res {
    // crossover frequency: mutated beyond the forced one ~ Binomial((N-1) * trials, cr)
    let extra: usize = steps.iter().map(|s| s.mutated.len() - 1).sum();
    let m = ((dim - 1) * steps.len()) as f64;
    let (mean, sd) = (m * cr as f64, (m * cr as f64 * (1.0 - cr as f64)).sqrt());
    ensure!(
        (extra as f64 - mean).abs() <= 8.0 * sd + 1e-9,
        "{d}: {extra} unforced coordinates of {m} were mutated, {mean:.0} +- {sd:.0} expected"
    );
    // each coordinate decides for itself: the number of unforced mutations per trial is binomial
    let mut hist = vec![0usize; dim];
    for s in steps {
        hist[s.mutated.len() - 1] += 1;
    }
    let mut pk = (1.0 - cr as f64).powi(dim as i32 - 1);
    if cr < 1.0 {
        for (k, &h) in hist.iter().enumerate() {
            let mean = steps.len() as f64 * pk;
            ensure!(
                (h as f64 - mean).abs() <= 8.0 * mean.sqrt().max(2.0),
                "{d}: {h} trials mutate {k} unforced coordinates, {mean:.1} expected from independent decisions"
            );
            pk *= (dim - 1 - k) as f64 / (k + 1) as f64 * cr as f64 / (1.0 - cr as f64);
        }
    }
    // every coordinate and every triple is eligible
    let mut per = vec![0usize; dim];
    for s in steps {
        for &n in &s.mutated {
            per[n] += 1;
        }
    }
    let q = cr as f64 + (1.0 - cr as f64) / dim as f64;
    let (mean, sd) = (steps.len() as f64 * q, (steps.len() as f64 * q * (1.0 - q)).sqrt());
    for (n, &c) in per.iter().enumerate() {
        ensure!((c as f64 - mean).abs() <= 8.0 * sd + 1e-9, "{d}: coordinate {n} was mutated in {c} of {} trials, {mean:.0} +- {sd:.0} expected", steps.len());
    }
    Ok(())
}

/// Long runs: which members and coordinates are used, and how often.
fn long<const N: usize>(i: u64, r: &mut Rng, l: &mut Log) -> Res {
    let pn = [4, 5, 6, 9, 26][i as usize % 5];
    let cr = [0.0f32, 0.1, 0.5, 0.9, 0.97, 1.0, 0.3][(i / 5) as usize % 7];
    let p = Params::<Gene, N> {
        bounds: std::array::from_fn(|_| gen_box(r)),
        p: pn,
        cr,
        w: Gene::of(0.01 + r.unit()),
        iters: 6000,
    };
    let mut src = Source::new(r.u64(), 0);
    src.budget = p.draw_budget();
    // members never change: nothing is ambiguous
    let t = observe(&p, &mut src, |_, _| false);
    let d = format!("N={N} P={pn} iters={} cr={cr} (long)", p.iters);
    let steps = explain(&p, &t, &d)?;
    frequencies(&steps, N, cr, &d)?;
    let mut used: BTreeSet<(usize, usize, usize)> = BTreeSet::new();
    let mut tuples = BTreeSet::new();
    for s in &steps {
        for (role, &k) in s.roles.iter().enumerate() {
            used.insert((s.slot, role, k));
        }
        tuples.insert((s.slot, s.roles));
    }
    for slot in 0..if pn < 10 { pn } else { 0 } {
        for role in 0..3 {
            for k in 0..pn {
                ensure!(k == slot || used.contains(&(slot, role, k)), "{d}: in {} trials member {k} was never used as {} for the trials of member {slot}", steps.len(), ["a", "b", "c"][role]);
            }
        }
    }
    // all members and all distances from the challenged one are equally likely
    let total = steps.len() as f64;
    for role in 0..3 {
        let (mut by, mut off) = (vec![0usize; pn], vec![0usize; pn]);
        for s in &steps {
            by[s.roles[role]] += 1;
            off[(s.roles[role] + pn - s.slot) % pn] += 1;
        }
        for k in 0..pn {
            for (what, n, mean) in [("member", by[k], total / pn as f64), ("distance", off[k], if k == 0 { 0.0 } else { total / (pn - 1) as f64 })] {
                ensure!((n as f64 - mean).abs() <= 8.0 * mean.sqrt(), "{d}: {what} {k} was used as {} in {n} of {total} trials, {mean:.0} expected", ["a", "b", "c"][role]);
            }
        }
    }
    for (x, y) in [(0, 1), (0, 2), (1, 2)] {
        let mut diff = vec![0usize; pn];
        for s in &steps {
            diff[(s.roles[x] + pn - s.roles[y]) % pn] += 1;
        }
        let mean = total / (pn - 1) as f64;
        for k in 1..pn {
            ensure!((diff[k] as f64 - mean).abs() <= 8.0 * mean.sqrt(), "{d}: members at distance {k} were used together in {} of {total} trials, {mean:.0} expected", diff[k]);
        }
    }
    if pn <= 5 {
        let want = pn * (pn - 1) * (pn - 2) * (pn - 3);
        ensure!(tuples.len() == want, "{d}: only {} of {want} combinations of members were used", tuples.len());
    }
    l.count("long trials", steps.len() as u64);
    l.max("member combinations", tuples.len() as u64);
    l.case(r.u64(), true);
    l.sample(|| format!("{d}: {} combinations of members", tuples.len()));
    Ok(())
}

/// Coordinate with a handle to the linear combination of members that it is.
/// When a trial replaces a member, its coordinates become members themselves,
/// so that every later trial is a combination of coordinates of current members.
#[derive(Clone, Copy, Debug)]
struct At {
    v: f64,
    id: u32,
}
#[derive(Clone, Debug, PartialEq)]
struct Node {
    /// coefficients of members, by the handle of their coordinate, and of 1
    terms: Vec<(u32, Zp)>,
    unit: Zp,
    /// a product of two combinations, which is none
    opaque: bool,
}
thread_local! { static NODES: std::cell::RefCell<Vec<Node>> = const { std::cell::RefCell::new(vec![]) }; }
impl At {
    fn node(v: f64, n: Node) -> At {
        NODES.with_borrow_mut(|a| {
            a.push(n);
            At { v, id: a.len() as u32 - 1 }
        })
    }
    fn scalar(v: f64, unit: Zp) -> At {
        At::node(v, Node { terms: vec![], unit, opaque: false })
    }
    fn get(self) -> Node {
        NODES.with_borrow(|a| a[self.id as usize].clone())
    }
    fn become_member(self) {
        NODES.with_borrow_mut(|a| a[self.id as usize] = Node { terms: vec![(self.id, Zp(1))], unit: Zp(0), opaque: false })
    }
    fn combine(self, o: At, v: f64, f: fn(&Zp, &Zp) -> Zp) -> At {
        let (x, y) = (self.get(), o.get());
        let mut terms: Vec<(u32, Zp)> = x.terms;
        for (k, c) in &y.terms {
            match terms.iter_mut().find(|(j, _)| j == k) {
                Some((_, d)) => *d = f(d, c),
                None => terms.push((*k, f(&Zp(0), c))),
            }
        }
        terms.retain(|(_, c)| c.0 != 0);
        At::node(v, Node { terms, unit: f(&x.unit, &y.unit), opaque: x.opaque || y.opaque })
    }
}
impl PartialEq for At {
    fn eq(&self, o: &At) -> bool {
        self.v == o.v
    }
}
impl PartialOrd for At {
    fn partial_cmp(&self, o: &At) -> Option<std::cmp::Ordering> {
        self.v.partial_cmp(&o.v)
    }
}
impl std::ops::Add for At {
    type Output = At;
    fn add(self, o: At) -> At {
        self.combine(o, self.v + o.v, Zp::m_add)
    }
}
impl std::ops::Sub for At {
    type Output = At;
    fn sub(self, o: At) -> At {
        self.combine(o, self.v - o.v, Zp::m_sub)
    }
}
impl std::ops::Mul for At {
    type Output = At;
    fn mul(self, o: At) -> At {
        let (mut x, mut y) = (self.get(), o.get());
        if x.terms.is_empty() {
            std::mem::swap(&mut x, &mut y);
        }
        let opaque = x.opaque || y.opaque || !y.terms.is_empty();
        let mut terms: Vec<_> = x.terms.iter().map(|(k, c)| (*k, c.m_mul(&y.unit))).collect();
        terms.retain(|(_, c)| c.0 != 0);
        At::node(self.v * o.v, Node { terms, unit: x.unit.m_mul(&y.unit), opaque })
    }
}
impl From<f32> for At {
    fn from(x: f32) -> At {
        At::scalar(x as f64, Gene::from(x).h)
    }
}
impl From<i8> for At {
    fn from(x: i8) -> At {
        At::scalar(x as f64, Gene::from(x).h)
    }
}
struct AtSampler(GeneSampler);
impl UniformSampler for AtSampler {
    type X = At;
    fn new<A: SampleBorrow<At> + Sized, B: SampleBorrow<At> + Sized>(lo: A, hi: B) -> Self {
        AtSampler(GeneSampler::new(Gene::of(lo.borrow().v), Gene::of(hi.borrow().v)))
    }
    fn new_inclusive<A: SampleBorrow<At> + Sized, B: SampleBorrow<At> + Sized>(lo: A, hi: B) -> Self {
        AtSampler(GeneSampler::new_inclusive(Gene::of(lo.borrow().v), Gene::of(hi.borrow().v)))
    }
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> At {
        let x = At::scalar(self.0.sample(rng).v, Zp(0));
        x.become_member();
        x
    }
}
impl SampleUniform for At {
    type Sampler = AtSampler;
}
impl Coord for At {
    const NAME: &'static str = "At";
    fn of64(x: f64) -> Self {
        At::scalar(x, fresh())
    }
    fn val(self) -> f64 {
        self.v
    }
    fn id(self) -> (u64, u64) {
        (self.v.to_bits(), self.id as u64)
    }
}

/// Every trial decoded, in populations of any size and points of any dimension.
fn decoded<const N: usize>(r: &mut Rng, l: &mut Log, pn: usize, rounds: f64) -> Res {
    NODES.with_borrow_mut(|a| *a = vec![]);
    let cr = r.pick(&[0.0, 0.5, 0.5, 0.5, 1.0, 0.2, 0.9]);
    let w = At::of64(0.1 + r.unit());
    let wh = w.get().unit;
    let p = Params::<At, N> {
        bounds: std::array::from_fn(|_| {
            let (lo, hi) = gen_box::<Gene>(r);
            (At::of64(lo.v), At::of64(hi.v))
        }),
        p: pn,
        cr,
        w,
        iters: pn + (pn as f64 * rounds) as usize,
    };
    let mut src = Source::new(r.u64(), 0);
    src.budget = p.draw_budget();
    let (kind, seed) = (r.below(4), r.u64());
    let mut j = judge(kind, seed);
    let d = format!("N={N} P={pn} iters={} cr={cr} judge={kind} (decoded)", p.iters);
    // owner of a member's coordinate, and the handles of each member
    let mut log: Vec<([Node; N], [u32; N], [u32; N], bool)> = vec![];
    let mut calls = 0;
    observe(&p, &mut src, |a, b| {
        calls += 1;
        if calls > p.iters {
            return false;
        }
        let ans = j(calls);
        log.push((a.map(At::get), a.map(|x| x.id), b.map(|x| x.id), ans));
        if ans {
            a.iter().for_each(|x| x.become_member());
        }
        ans
    });
    ensure!(log.len() == p.iters, "{d}: {} comparisons for {} trials", log.len(), p.iters);
    let mut member: Vec<[u32; N]> = log[..pn].iter().map(|c| c.2).collect();
    let mut owner: HashMap<u32, (usize, usize)> = HashMap::new();
    for (k, m) in member.iter().enumerate() {
        for (n, &id) in m.iter().enumerate() {
            ensure!(owner.insert(id, (k, n)).is_none(), "{d}: members {k} and {:?} share a coordinate", owner.get(&id));
        }
    }
    let mut steps = vec![];
    for (ti, (a, ah, b, ans)) in log.iter().enumerate() {
        let slot = ti % pn;
        ensure!(*b == member[slot], "{d}: trial {ti} challenges handles {b:?}; member {slot} is {:?} (replaced exactly if preferred)", member[slot]);
        let mut roles: Option<[usize; 3]> = None;
        let mut mutated = vec![];
        for n in 0..N {
            let x = &a[n];
            if *x == (Node { terms: vec![(member[slot][n], Zp(1))], unit: Zp(0), opaque: false }) {
                continue;
            }
            let mut abc = [usize::MAX; 3];
            for (k, c) in &x.terms {
                let role = if *c == Zp(1) { 0 } else if *c == wh { 1 } else if *c == Zp(0).m_sub(&wh) { 2 } else { 3 };
                ensure!(role < 3, "{d}: trial {ti}: coordinate {n} = {x:?} is not a + (b - c) * w");
                let Some(&(s, m)) = owner.get(k) else {
                    return Err(format!("{d}: trial {ti}: coordinate {n} is computed from {k}, which is not in the population"));
                };
                ensure!(m == n, "{d}: trial {ti}: coordinate {n} is computed from coordinate {m} of member {s}");
                abc[role] = s;
            }
            ensure!(
                x.unit == Zp(0) && !x.opaque && x.terms.len() == 3 && !abc.contains(&usize::MAX),
                "{d}: trial {ti}: coordinate {n} = {x:?} is not a + (b - c) * w with three different members"
            );
            ensure!(!abc.contains(&slot), "{d}: trial {ti} of member {slot} uses {abc:?}");
            ensure!(roles.is_none_or(|q| q == abc), "{d}: trial {ti} uses the members {:?} and {abc:?} on its coordinates", roles.unwrap());
            roles = Some(abc);
            mutated.push(n);
        }
        let Some(roles) = roles else {
            return Err(format!("{d}: trial {ti} changes no coordinate of member {slot}"));
        };
        if *ans {
            for &n in &mutated {
                owner.remove(&member[slot][n]);
                owner.insert(ah[n], (slot, n));
            }
            member[slot] = *ah;
        }
        if cr == 0.0 {
            ensure!(mutated.len() == 1, "{d}: trial {ti} mutates the coordinates {mutated:?} at crossover probability 0");
        }
        if cr == 1.0 {
            ensure!(mutated.len() == N, "{d}: trial {ti} mutates only the coordinates {mutated:?} at crossover probability 1");
        }
        steps.push(Step { slot, changed: mutated.len(), mutated, roles });
    }
    frequencies(&steps, N, cr, &d)?;
    independence::<N>(&steps, cr, &d)?;
    // the members used, by place and by distance from the challenged one, in up to 32 parts
    let parts = pn.min(32);
    let total = steps.len() as f64;
    for role in 0..3 {
        let (mut by, mut off) = (vec![0usize; parts], vec![0usize; parts]);
        for s in &steps {
            by[s.roles[role] * parts / pn] += 1;
            off[(s.roles[role] + pn - s.slot) % pn * parts / pn] += 1;
        }
        for k in 0..parts {
            // the members in this part; distance 0 does not occur
            let size = ((k + 1) * pn).div_ceil(parts) - (k * pn).div_ceil(parts);
            for (what, n, mean) in [
                ("place", by[k], total * size as f64 / pn as f64),
                ("distance", off[k], total * (size - (k == 0) as usize) as f64 / (pn - 1) as f64),
            ] {
                ensure!(
                    (n as f64 - mean).abs() <= 8.0 * mean.sqrt().max(3.0) + total / pn as f64,
                    "{d}: members in part {k} of {parts} by {what} were used as {} in {n} of {total} trials, {mean:.0} expected", ["a", "b", "c"][role]
                );
            }
        }
    }
    l.count("decoded trials", steps.len() as u64);
    l.max("decoded dimension", N as u64);
    l.max("decoded population", pn as u64);
    l.case(r.u64(), true);
    l.sample(|| format!("{d}: {} decoded trials", steps.len()));
    NODES.with_borrow_mut(|a| *a = vec![]);
    Ok(())
}

/// Whether coordinates at any distance, or of the next trials, decide together.
fn independence<const N: usize>(steps: &[Step], cr: f32, d: &str) -> Res {
    if N < 2 || cr != 0.5 {
        return Ok(());
    }
    let rows: Vec<[bool; N]> = steps
        .iter()
        .map(|s| {
            let mut row = [false; N];
            s.mutated.iter().for_each(|&n| row[n] = true);
            row
        })
        .collect();
    let mut check = |what: &str, both: usize, total: usize| -> Res {
        // equal with probability 1/2: a forced coordinate changes nothing of that
        let (x, m) = (both as f64, total as f64);
        ensure!((x - m / 2.0).abs() <= 8.0 * m.sqrt().max(3.0), "{d}: coordinates {what} are both or neither mutated in {both} of {total} cases");
        Ok(())
    };
    for delta in 1..N {
        let mut both = 0;
        for row in &rows {
            both += (delta..N).filter(|&n| row[n] == row[n - delta]).count();
        }
        check(&format!("at distance {delta}"), both, rows.len() * (N - delta))?;
    }
    if N < 8 {
        return Ok(());
    }
    // forced coordinates agree between trials with probability (1 + 1/N^2) / 2
    for later in [1, 2, 4, 5, 6, 7, 8, 16, 64] {
        for shift in [0, 1, N / 2, N - 1] {
            let mut both = 0;
            for q in later..rows.len() {
                both += (0..N).filter(|&n| rows[q][n] == rows[q - later][(n + shift) % N]).count();
            }
            let m = (rows.len().saturating_sub(later) * N) as f64;
            ensure!(
                (both as f64 - m / 2.0).abs() <= 8.0 * m.sqrt().max(3.0) + m / (N * N) as f64,
                "{d}: coordinates {shift} apart, {later} trials apart are both or neither mutated in {both} of {m} cases"
            );
        }
    }
    Ok(())
}

/// P(chi-square with `df` degrees of freedom > limit) < e^-60
fn chi_limit(df: f64) -> f64 {
    df + 2.0 * (df * 60.0).sqrt() + 120.0
}

/// Rates over very many coordinates: small and large crossover probabilities
/// are not rounded, and no coordinate is favoured as the forced one.
fn rates<const N: usize>(r: &mut Rng, l: &mut Log, cr: f32, trials: usize) -> Res {
    let p = Params::<f64, N> {
        bounds: std::array::from_fn(|n| (-1.0 - n as f64, 1.0 + r.unit())),
        p: 4 + r.below(3),
        cr,
        w: 0.3 + r.unit(),
        iters: trials,
    };
    let mut src = Source::new(r.u64(), 0);
    src.budget = p.draw_budget();
    let d = format!("N={N} P={} iters={trials} cr={cr:e} (rates)", p.p);
    let mut per = vec![0u64; N];
    let (mut seen, mut none, mut total) = (0, 0, 0u64);
    differential_evolution(&p.bounds, p.p, p.cr, p.w, p.iters, &mut src, |a, b| {
        seen += 1;
        if seen <= trials {
            let mut k = 0;
            for n in 0..N {
                if a[n].to_bits() != b[n].to_bits() {
                    per[n] += 1;
                    k += 1;
                }
            }
            none += (k == 0) as usize;
            total += k;
        }
        false
    });
    ensure!(seen >= trials, "{d}: {seen} comparisons for {trials} trials");
    ensure!(none == 0, "{d}: {none} trials equal the challenged member");
    let extra = total as f64 - trials as f64;
    let (m, q) = (((N - 1) * trials) as f64, cr as f64);
    let (mean, sd) = (m * q, (m * q * (1.0 - q)).sqrt());
    ensure!((extra - mean).abs() <= 8.0 * sd + 8.0 * (cr > 0.0 && cr < 1.0) as u8 as f64, "{d}: {extra} unforced coordinates of {m} were mutated, {mean:.1} +- {sd:.1} expected");
    let each = total as f64 / N as f64;
    if each >= 20.0 && cr < 0.5 {
        let chi: f64 = per.iter().map(|&c| (c as f64 - each).powi(2) / each).sum();
        ensure!(chi <= chi_limit(N as f64), "{d}: {trials} trials mutate coordinate {:?} least and {:?} most often, which is not evenly (chi-square {chi:.0}, at most {:.0} by chance)", per.iter().enumerate().min_by_key(|x| x.1), per.iter().enumerate().max_by_key(|x| x.1), chi_limit(N as f64));
        l.count("coordinates tested for evenness", N as u64);
    }
    l.count("coordinates decided", m as u64);
    l.case(r.u64(), true);
    Ok(())
}

fn main() {
    let run = Run::new("C21", "an optimisation with at least one trial, all of whose trials were explained");
    let n = run.n(150, 4000);
    run.cases("trace-1", n, one::<1>);
    run.cases("trace-2", n, one::<2>);
    run.cases("trace-3", n, one::<3>);
    run.cases("trace-5", n, one::<5>);
    run.cases("trace-8", n, one::<8>);
    run.cases("trace-20", n / 4, one::<20>);
    run.cases("trace-33", n / 8, one::<33>);
    run.cases("trace-64", n / 16, one::<64>);
    // few members and many trials; then many members
    for pn in [4, 5, 7, 12] {
        let per = |n: usize| 40_000.0 / (n as f64).max(8.0) / pn as f64;
        let m = run.n(1, 6);
        macro_rules! dims { ($($n:literal),*) => { $( run.cases(&format!("decoded-{}-P{pn}", $n), m, |r, l| decoded::<$n>(r, l, pn, per($n))); )* } }
        dims!(1, 2, 3, 9, 16, 32, 33, 40, 64, 65, 70, 100, 128, 130, 200, 257);
    }
    let m = run.n(1, 10);
    run.cases("decoded-populations-1", m, |r, l| {
        let pn = r.pick(&[50, 300, 1000, 5000]);
        decoded::<1>(r, l, pn, 3.0)
    });
    run.cases("decoded-populations-3", m, |r, l| {
        let pn = r.pick(&[50, 300, 1000, 5000]) + r.below(20);
        decoded::<3>(r, l, pn, 3.0)
    });
    run.cases("decoded-huge-populations", run.n(1, 6), |r, l| {
        let pn = r.huge();
        decoded::<2>(r, l, pn, 0.5)
    });
    const RARE: [f32; 12] = [2e-6, 0.0, 1e-3, 1.0 - 1e-3, 0.0, 4e-5, 1.0 - 4e-6, 1.0 / 300.0, 0.0, 1.0 - 1.0 / 300.0, 0.501, 1e-7];
    run.cases_i("rates", run.n(1, 5), |i, r, l| {
        let cr = RARE[i as usize % RARE.len()];
        // sizes at which a few random bits are not enough
        match (i as usize / 2) % 4 {
            0 => rates::<1000>(r, l, cr, 100_000),
            1 => rates::<200>(r, l, cr, 100_000),
            2 => rates::<257>(r, l, cr, 100_000),
            _ => rates::<3>(r, l, cr, 2_000_000),
        }
    });
    let m = run.n(3, 100);
    run.cases_i("long-1", m, long::<1>);
    run.cases_i("long-2", m, long::<2>);
    run.cases_i("long-4", m, long::<4>);
    run.cases_i("long-7", m, long::<7>);
    let m = run.n(1, 10).div_ceil(3);
    run.cases("large-1", m, large::<1>);
    run.cases("large-2", m, large::<2>);
    run.cases("large-9", m, large::<9>);
    run.require("decoded trials", 500_000);
    run.require("trials in large populations", 1000);
    run.require("coordinates decided", 10_000_000);
    run.require("coordinates tested for evenness", 300);
    run.require("trials in long runs", 10_000);
    run.require("replacements", 1000);
    run.require("trials at probability 0", 500);
    run.require("trials at probability 1", 500);
    run.require("long trials", 100000);
    run.finish()
}
