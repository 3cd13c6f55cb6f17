//! Probes for the optimiser: a coordinate type that carries its provenance,
//! counting generators and a recording comparator.
use crate::elems::{El, Zp};
use crate::run::{mix, Rng};
use magnesia::optimize::differential_evolution;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use rand::RngCore;
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::{Add, Mul, Sub};

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
}
/// a fresh random field element: the symbol of one sampled coordinate
pub fn fresh() -> Zp {
    NEXT.with(|n| {
        let k = n.get();
        n.set(k + 1);
        Zp::new(((mix(k ^ 0x5eed_0001) as u128) << 30 | mix(k ^ 0x77) as u128 >> 34) as i128)
    })
}

/// Coordinate: a value together with the value of the formal expression that
/// produced it at a random point of the field with 2^61-1 elements.
#[derive(Clone, Copy, Debug)]
pub struct Gene {
    pub v: f64,
    pub h: Zp,
    /// drawn from a box (and not computed)
    pub drawn: bool,
}
impl Gene {
    pub fn of(v: f64) -> Gene {
        Gene { v, h: fresh(), drawn: false }
    }
}
impl PartialEq for Gene {
    fn eq(&self, o: &Gene) -> bool {
        self.v == o.v
    }
}
impl PartialOrd for Gene {
    fn partial_cmp(&self, o: &Gene) -> Option<Ordering> {
        self.v.partial_cmp(&o.v)
    }
}
impl Add for Gene {
    type Output = Gene;
    fn add(self, o: Gene) -> Gene {
        Gene { v: self.v + o.v, h: self.h.m_add(&o.h), drawn: false }
    }
}
impl Sub for Gene {
    type Output = Gene;
    fn sub(self, o: Gene) -> Gene {
        Gene { v: self.v - o.v, h: self.h.m_sub(&o.h), drawn: false }
    }
}
impl Mul for Gene {
    type Output = Gene;
    fn mul(self, o: Gene) -> Gene {
        Gene { v: self.v * o.v, h: self.h.m_mul(&o.h), drawn: false }
    }
}
impl From<f32> for Gene {
    fn from(x: f32) -> Gene {
        Gene { v: x as f64, h: Zp::new((x * 1024.0) as i128), drawn: false }
    }
}
impl From<i8> for Gene {
    fn from(x: i8) -> Gene {
        Gene { v: x as f64, h: Zp::new(x as i128), drawn: false }
    }
}
pub struct GeneSampler {
    lo: f64,
    hi: f64,
    inclusive: bool,
}
impl UniformSampler for GeneSampler {
    type X = Gene;
    fn new<A: SampleBorrow<Gene> + Sized, B: SampleBorrow<Gene> + Sized>(lo: A, hi: B) -> Self {
        let (lo, hi) = (lo.borrow().v, hi.borrow().v);
        assert!(lo < hi, "empty range {lo}..{hi}");
        GeneSampler { lo, hi, inclusive: false }
    }
    fn new_inclusive<A: SampleBorrow<Gene> + Sized, B: SampleBorrow<Gene> + Sized>(lo: A, hi: B) -> Self {
        let (lo, hi) = (lo.borrow().v, hi.borrow().v);
        assert!(lo <= hi, "empty range {lo}..={hi}");
        GeneSampler { lo, hi, inclusive: true }
    }
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Gene {
        let bits = rng.next_u64();
        let u = (bits >> 11) as f64 / (1u64 << 53) as f64;
        let mut v = self.lo + u * (self.hi - self.lo);
        // the ends of the range are drawn often
        match bits & 15 {
            0 => v = self.lo,
            1 if self.inclusive => v = self.hi,
            _ => {}
        }
        if v >= self.hi && !self.inclusive {
            v = self.hi.next_down();
        }
        Gene { v, h: fresh(), drawn: true }
    }
}
impl SampleUniform for Gene {
    type Sampler = GeneSampler;
}

/// what the checks need of a coordinate type
pub trait Coord:
    PartialOrd + Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + SampleUniform + std::fmt::Debug + From<f32> + From<i8>
    + Send + Sync + 'static
{
    const NAME: &'static str;
    fn of64(x: f64) -> Self;
    fn val(self) -> f64;
    fn id(self) -> (u64, u64);
}
impl Coord for f64 {
    const NAME: &'static str = "f64";
    fn of64(x: f64) -> Self {
        x
    }
    fn val(self) -> f64 {
        self
    }
    fn id(self) -> (u64, u64) {
        (self.to_bits(), 0)
    }
}
impl Coord for f32 {
    const NAME: &'static str = "f32";
    fn of64(x: f64) -> Self {
        x as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
    fn id(self) -> (u64, u64) {
        (self.to_bits() as u64, 0)
    }
}
impl Coord for Gene {
    const NAME: &'static str = "Gene";
    fn of64(x: f64) -> Self {
        Gene::of(x)
    }
    fn val(self) -> f64 {
        self.v
    }
    fn id(self) -> (u64, u64) {
        // a computed coordinate is never mistaken for a drawn one, even where
        // the arithmetic happens to give back its value
        (self.v.to_bits(), self.h.0 | (self.drawn as u64) << 63)
    }
}
pub fn ids<T: Coord, const N: usize>(x: &[T; N]) -> [(u64, u64); N] {
    x.map(|c| c.id())
}

/// Generator under observation. `Mode` shapes the stream.
#[derive(Clone, Debug, PartialEq)]
pub struct Source {
    s: u64,
    mode: u8,
    burst: u64,
    pub draws: u64,
    pub budget: u64,
}
impl Source {
    pub const MODES: u8 = 4;
    pub fn new(seed: u64, mode: u8) -> Source {
        Source { s: mix(seed), mode, burst: 0, draws: 0, budget: u64::MAX }
    }
    fn raw(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.s)
    }
    fn draw(&mut self) -> u64 {
        self.draws += 1;
        if self.draws > self.budget {
            panic!("the optimiser drew more than {} words from its generator", self.budget);
        }
        match self.mode {
            0 => self.raw(),
            // bursts: words repeat up to three times
            1 => {
                if self.burst & 3 == 0 || self.draws % 4 == 0 {
                    let w = self.raw();
                    self.burst = w;
                }
                let w = self.burst;
                self.burst = (self.burst & !3) | (self.burst.wrapping_sub(1) & 3);
                w
            }
            // now and then all bits clear or all bits set
            2 => {
                let w = self.raw();
                match w % 8 {
                    0 => 0,
                    1 => u64::MAX,
                    _ => self.raw(),
                }
            }
            // high halves biased towards the ends
            _ => {
                let w = self.raw();
                if w & 1 == 0 {
                    w
                } else if w & 2 == 0 {
                    w >> 12
                } else {
                    !(w >> 12)
                }
            }
        }
    }
}
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        (self.draw() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.draw().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct Params<T, const N: usize> {
    pub bounds: [(T, T); N],
    pub p: usize,
    pub cr: f32,
    pub w: T,
    pub iters: usize,
}
pub fn gen_box<T: Coord>(r: &mut Rng) -> (T, T) {
    if r.chance(1, 8) {
        // very small or large scales
        let s = 10f64.powi(r.range(6, 30) as i32 * r.pick(&[-1, 1]));
        let lo = r.pick(&[0.0, -1.0, 0.5]) * s;
        return (T::of64(lo), T::of64(lo + s * (0.1 + r.unit())));
    }
    let lo = match r.below(6) {
        0 => 0.0,
        1 => -1.0,
        2 => r.range(-100, 100) as f64,
        3 => (r.unit() - 0.5) * 1e6,
        4 => -(r.unit() * 10.0),
        _ => r.unit() * 1e-3,
    };
    let width = match r.below(5) {
        0 => 1.0,
        1 => 2.0 * lo.abs().max(0.5),
        2 => lo.abs().max(1.0) * 1e-4,
        3 => 1000.0 * (1.0 + r.unit()),
        _ => 0.1 + r.unit() * 10.0,
    };
    (T::of64(lo), T::of64(lo + width))
}
impl<T: Coord, const N: usize> Params<T, N> {
    pub fn gen(r: &mut Rng, max_p: usize, max_iters: usize) -> Self {
        let p = match r.below(4) {
            0 => 4 + r.below(2),
            1 => 4 + r.below(6),
            2 => 4 + r.below((max_p - 3).min(20)),
            _ => 4 + r.below(max_p - 3),
        };
        let iters = match r.below(6) {
            0 => r.below(p + 1),
            1 => p + r.below(3),
            2 => p * r.below(5),
            3 => 0,
            _ => r.below(max_iters + 1),
        };
        Params {
            bounds: std::array::from_fn(|_| gen_box(r)),
            p,
            cr: match r.below(7) {
                0 => 0.0,
                1 => 1.0,
                2 => 0.5,
                3 => -0.0,
                4 => f32::MIN_POSITIVE,
                5 => 1.0 - f32::EPSILON / 2.0,
                _ => r.unit() as f32,
            },
            w: T::of64(match r.below(6) {
                0 => 0.0,
                1 => 2.0,
                2 => 1.0,
                3 => 0.5,
                _ => 2.0 * r.unit(),
            }),
            iters,
        }
    }
    /// a bound on the words drawn that any sensible implementation stays far below
    pub fn draw_budget(&self) -> u64 {
        20_000 + 60 * (self.p * (N + 1)) as u64 + 200 * (self.iters * (N + 8)) as u64
    }
}

pub struct Call<T, const N: usize> {
    pub a: [T; N],
    pub b: [T; N],
    pub ans: bool,
}
pub struct Trace<T, const N: usize> {
    pub calls: Vec<Call<T, N>>,
    pub result: [T; N],
}
/// Runs the optimiser and records every comparison.
pub fn observe<T: Coord, const N: usize>(
    p: &Params<T, N>,
    rng: &mut impl rand::Rng,
    mut cmp: impl FnMut(&[T; N], &[T; N]) -> bool,
) -> Trace<T, N> {
    let mut calls = Vec::with_capacity(p.iters + 2 * p.p);
    // far beyond what one final selection needs, however it is organised
    let limit = 4 * p.iters + 200 * p.p + 20_000;
    let result = differential_evolution(&p.bounds, p.p, p.cr, p.w, p.iters, rng, |a, b| {
        if calls.len() >= limit {
            panic!("the optimiser made more than {limit} comparisons");
        }
        let ans = cmp(a, b);
        calls.push(Call { a: *a, b: *b, ans });
        ans
    });
    Trace { calls, result }
}

pub const OBJECTIVES: usize = 10;
/// objective values; candidates are ordered by `total_cmp`
pub fn objective<T: Coord, const N: usize>(kind: usize, seed: u64, bounds: &[(T, T); N], x: &[T; N]) -> f64 {
    let centre = |n: usize| {
        let (a, b) = (bounds[n].0.val(), bounds[n].1.val());
        a + (b - a) * ((mix(seed ^ n as u64) >> 11) as f64 / (1u64 << 53) as f64)
    };
    let sphere = || {
        let mut s = 0.0;
        for n in 0..N {
            let w = bounds[n].1.val() - bounds[n].0.val();
            let d = (x[n].val() - centre(n)) / w;
            s += d * d;
        }
        s
    };
    let hash = || {
        let mut h = seed;
        for c in x {
            h = mix(h ^ c.id().0).wrapping_add(mix(c.id().1));
        }
        h
    };
    match kind {
        0 => sphere(),
        1 => 0.0,
        2 => (sphere() * 4.0).floor(),
        3 => (hash() >> 12) as f64,
        4 => (hash() % 3) as f64,
        5 => x.iter().map(|c| c.val()).sum(),
        6 => -sphere(),
        7 => x.iter().map(|c| c.val()).fold(f64::NEG_INFINITY, f64::max),
        8 => x[0].val(),
        // one needle: most candidates tie, a few are better
        _ => {
            if hash() % 16 == 0 {
                -((hash() >> 40) as f64)
            } else {
                1.0
            }
        }
    }
}
