//! C29: over machine integers results are exact, or the overflow is reported.
//! Model: values modulo 2^128 together with the (saturating) sum of the
//! magnitudes of all terms.
use harness::elems::El;
use harness::ensure;
use harness::mm::Mm;
use harness::poly;
use harness::run::{caught, key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Conj, One, Polynomial, Ring, Zero};
use magnesia::linalg::*;
use std::fmt::Debug;
use std::hint::black_box;
use std::ops::*;

/// value modulo 2^128 and sum of the magnitudes that went into it
#[derive(Clone, Copy, Debug)]
struct W {
    m: i128,
    g: u128,
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        self.m == o.m
    }
}
impl El for W {
    const NAME: &'static str = "W";
    const COMMUTES: bool = true;
    fn gen(_: &mut Rng) -> W {
        unreachable!()
    }
    fn m_int(i: i8) -> W {
        W { m: i as i128, g: i.unsigned_abs() as u128 }
    }
    fn m_add(&self, o: &W) -> W {
        W { m: self.m.wrapping_add(o.m), g: self.g.saturating_add(o.g) }
    }
    fn m_sub(&self, o: &W) -> W {
        W { m: self.m.wrapping_sub(o.m), g: self.g.saturating_add(o.g) }
    }
    fn m_mul(&self, o: &W) -> W {
        W { m: self.m.wrapping_mul(o.m), g: self.g.saturating_mul(o.g) }
    }
    fn m_conj(&self) -> W {
        *self
    }
}

trait MInt:
    Ring + Conj + Copy + Debug + Send + Sync + 'static
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign + SubAssign + MulAssign + for<'a> MulAssign<&'a Self>
{
    const NAME: &'static str;
    const BITS: u32;
    const MIN: Self;
    const MAX: Self;
    fn wide(self) -> i128;
    fn cut(x: i128) -> Self;
}
macro_rules! mint { ($($t:ty)*) => { $(
    impl MInt for $t {
        const NAME: &'static str = stringify!($t);
        const BITS: u32 = <$t>::BITS;
        const MIN: Self = <$t>::MIN;
        const MAX: Self = <$t>::MAX;
        fn wide(self) -> i128 { self as i128 }
        fn cut(x: i128) -> Self { x as $t }
    }
)* } }
mint!(i8 i16 i32 i64 i128);

fn w<I: MInt>(x: I) -> W {
    W { m: x.wide(), g: x.wide().unsigned_abs() }
}
fn ws<I: MInt>(x: &[I]) -> Vec<W> {
    x.iter().map(|&x| w(x)).collect()
}

/// `mag` bits of magnitude, so that sums and products often just fit
fn int<I: MInt>(r: &mut Rng, mag: u32) -> I {
    let raw = ((r.u64() as i128) << 64) | r.u64() as i128;
    match r.below(12) {
        0 => I::cut(0),
        1 => I::cut(1),
        2 => I::cut(-1),
        3 => I::MIN,
        4 => I::MAX,
        5 => I::cut(I::MIN.wide() + r.range(0, 2) as i128),
        _ => {
            let b = mag.min(I::BITS - 1).max(1);
            let x = raw >> (128 - b.min(127) - 1);
            I::cut(x)
        }
    }
}
fn list<I: MInt>(r: &mut Rng, n: usize, mag: u32) -> Vec<I> {
    // mostly all moderate; sometimes extremes mixed in
    let extremes = r.chance(1, 4);
    (0..n)
        .map(|_| loop {
            let x = int::<I>(r, mag);
            if extremes || x.wide().unsigned_abs() < 1u128 << mag.min(I::BITS - 1) {
                break x;
            }
        })
        .collect()
}

struct Verdict {
    checks: bool,
}
impl Verdict {
    /// `single`: one operation per entry, so that representable means fine
    fn of<I: MInt>(&self, l: &mut Log, what: &str, got: Result<Vec<I>, String>, want: &[W], single: bool, show: &dyn Fn() -> String) -> Res {
        let exact = |x: &W| x.g < 1u128 << 127;
        let fits = |x: &W| {
            if single {
                exact(x) && x.m >= I::MIN.wide() && x.m <= I::MAX.wide()
            } else {
                x.g <= I::MAX.wide() as u128
            }
        };
        let all = want.iter().all(fits);
        l.count(if all { "fitting" } else { "overflowing" }, 1);
        match got {
            Err(p) => {
                ensure!(!all, "{what} over {}: panics though everything fits ({p}): {}", I::NAME, show());
                ensure!(self.checks, "{what} over {}: panics without overflow checks ({p}): {}", I::NAME, show());
                l.count("overflow reported", 1);
            }
            Ok(v) => {
                ensure!(v.len() == want.len(), "{what} over {}: {} entries, want {}: {}", I::NAME, v.len(), want.len(), show());
                for (k, (x, y)) in v.iter().zip(want).enumerate() {
                    ensure!(*x == I::cut(y.m), "{what} over {}: entry {k} is {x:?}, want {} (modulo 2^{}): {}", I::NAME, y.m, I::BITS, show());
                    // with checks on, a value that is returned is the exact one
                    ensure!(
                        !self.checks || !exact(y) || x.wide() == y.m,
                        "{what} over {}: entry {k} silently overflows to {x:?}, exact {}: {}", I::NAME, y.m, show()
                    );
                }
                if !all {
                    l.count("wrapped", 1);
                }
            }
        }
        Ok(())
    }
}

fn polys<I: MInt>(r: &mut Rng, l: &mut Log, v: &Verdict) -> Res {
    let (n, m) = if r.chance(1, 30) { (r.size(200), r.size(80)) } else { (r.below(8), r.below(8)) };
    let mag = 1 + r.below(I::BITS as usize / 2 + 1) as u32;
    let (a, b): (Vec<I>, Vec<I>) = (list(r, n, mag), list(r, m, mag));
    let show = || format!("{a:?} and {b:?}");
    let (p, q) = (Polynomial::from_coefficients(a.clone()), Polynomial::from_coefficients(b.clone()));
    // compare with ==: the wanted polynomial is built from the model
    let judge = |l: &mut Log, what: &str, want: Vec<W>, single: bool, f: &dyn Fn() -> Polynomial<I>| -> Res {
        let target = Polynomial::from_coefficients(want.iter().map(|x| I::cut(x.m)).collect::<Vec<I>>());
        let got = caught(|| {
            let g = f();
            let eq = g == target;
            (g, eq)
        });
        match got {
            Err(e) => v.of::<I>(l, what, Err(e), &want, single, &show),
            Ok((g, eq)) => {
                ensure!(eq, "{what} over {}: {g:?}, want {target:?}: {}", I::NAME, show());
                v.of::<I>(l, what, Ok(want.iter().map(|x| I::cut(x.m)).collect()), &want, single, &show)
            }
        }
    };
    let (wa, wb) = (ws(&a), ws(&b));
    let sum = poly::add(&wa, &wb);
    let dif = poly::sub(&wa, &wb);
    let prod = poly::mul(&wa, &wb);
    let neg = poly::neg(&wa);
    judge(l, "p + q", sum.clone(), true, &|| p.clone() + q.clone())?;
    judge(l, "p += q", sum.clone(), true, &|| {
        let mut t = p.clone();
        t += q.clone();
        t
    })?;
    judge(l, "p += &q", sum, true, &|| {
        let mut t = p.clone();
        t += &q;
        t
    })?;
    judge(l, "p - q", dif.clone(), true, &|| p.clone() - q.clone())?;
    judge(l, "p -= q", dif.clone(), true, &|| {
        let mut t = p.clone();
        t -= q.clone();
        t
    })?;
    judge(l, "p -= &q", dif, true, &|| {
        let mut t = p.clone();
        t -= &q;
        t
    })?;
    judge(l, "-p", neg, true, &|| -p.clone())?;
    judge(l, "p * q", prod.clone(), false, &|| p.clone() * q.clone())?;
    judge(l, "&p * &q", prod.clone(), false, &|| &p * &q)?;
    judge(l, "p *= q", prod, false, &|| {
        let mut t = p.clone();
        t *= q.clone();
        t
    })?;
    let x: I = if r.chance(1, 2) { I::cut(r.range(-3, 3) as i128) } else { int(r, mag) };
    let value = poly::eval(&wa, &w(x));
    let show = || format!("{a:?} at {x:?}");
    v.of(l, "p.eval(x)", caught(|| vec![p.eval(x)]), &[value], false, &show)?;
    v.of(l, "p.eval_ref(&x)", caught(|| vec![p.eval_ref(&x)]), &[value], false, &show)?;
    l.case(key_of(&("p", I::NAME, &a, &b, x)), n + m > 0);
    l.sample(|| format!("polynomials over {}: {a:?}, {b:?} at {x:?}", I::NAME));
    Ok(())
}

fn complex<I: MInt>(r: &mut Rng, l: &mut Log, v: &Verdict) -> Res {
    let mag = 1 + r.below(I::BITS as usize) as u32;
    let a: Vec<I> = list(r, 5, mag);
    let (x, y, s) = (Complex::new(a[0], a[1]), Complex::new(a[2], a[3]), a[4]);
    let (wx, wy) = (Complex::new(w(a[0]), w(a[1])), Complex::new(w(a[2]), w(a[3])));
    let show = || format!("{x:?} and {y:?}, scalar {s:?}");
    let flat = |z: Complex<I>| vec![z.re, z.im];
    let want = |z: Complex<W>| [z.re, z.im];
    v.of(l, "x + y", caught(|| flat(x + y)), &want(wx.m_add(&wy)), true, &show)?;
    v.of(l, "x - y", caught(|| flat(x - y)), &want(wx.m_sub(&wy)), true, &show)?;
    v.of(l, "x += y", caught(|| { let mut t = x; t += y; flat(t) }), &want(wx.m_add(&wy)), true, &show)?;
    v.of(l, "x += &y", caught(|| { let mut t = x; t += &y; flat(t) }), &want(wx.m_add(&wy)), true, &show)?;
    v.of(l, "x -= y", caught(|| { let mut t = x; t -= y; flat(t) }), &want(wx.m_sub(&wy)), true, &show)?;
    v.of(l, "x -= &y", caught(|| { let mut t = x; t -= &y; flat(t) }), &want(wx.m_sub(&wy)), true, &show)?;
    v.of(l, "-x", caught(|| flat(-x)), &want(wx.m_neg()), true, &show)?;
    v.of(l, "x.conj()", caught(|| flat(x.conj())), &want(wx.m_conj_complex()), true, &show)?;
    v.of(l, "x * y", caught(|| flat(x * y)), &want(wx.m_mul(&wy)), false, &show)?;
    v.of(l, "&x * &y", caught(|| flat(&x * &y)), &want(wx.m_mul(&wy)), false, &show)?;
    v.of(l, "x *= y", caught(|| { let mut t = x; t *= y; flat(t) }), &want(wx.m_mul(&wy)), false, &show)?;
    v.of(l, "x * s", caught(|| flat(x * s)), &[wx.re.m_mul(&w(s)), wx.im.m_mul(&w(s))], true, &show)?;
    v.of(l, "x.sqr_norm()", caught(|| vec![x.sqr_norm()]), &[wx.re.m_mul(&wx.re).m_add(&wx.im.m_mul(&wx.im))], false, &show)?;
    l.case(key_of(&("c", I::NAME, &a)), true);
    Ok(())
}
trait ConjW {
    fn m_conj_complex(&self) -> Self;
}
impl ConjW for Complex<W> {
    fn m_conj_complex(&self) -> Self {
        Complex { re: self.re, im: self.im.m_neg() }
    }
}

fn dots(a: &[W], b: &[W]) -> W {
    a.iter().zip(b).fold(W::m_zero(), |s, (x, y)| s.m_add(&x.m_mul(y)))
}
fn map2(a: &[W], b: &[W], f: impl Fn(&W, &W) -> W) -> Vec<W> {
    a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
}

fn static_ones<I: MInt, const D: usize>(r: &mut Rng, l: &mut Log, v: &Verdict) -> Res {
    let mag = 1 + r.below(I::BITS as usize) as u32;
    let (a, b): (Vec<I>, Vec<I>) = (list(r, D, mag), list(r, D, mag));
    let s: I = list(r, 1, mag)[0];
    let arr = |v: &[I]| -> [I; D] { std::array::from_fn(|i| v[i]) };
    let (x, y) = (SVector::from(arr(&a)), SVector::from(arr(&b)));
    let (wa, wb) = (ws(&a), ws(&b));
    let show = || format!("{a:?} and {b:?}, scalar {s:?}");
    let flat = |v: SVector<I, D>| v.0.to_vec();
    v.of(l, "u + v (static)", caught(|| flat(x + y)), &map2(&wa, &wb, W::m_add), true, &show)?;
    v.of(l, "u += &v (static)", caught(|| { let mut t = x; t += &y; flat(t) }), &map2(&wa, &wb, W::m_add), true, &show)?;
    v.of(l, "u - v (static)", caught(|| flat(x - y)), &map2(&wa, &wb, W::m_sub), true, &show)?;
    v.of(l, "u -= v (static)", caught(|| { let mut t = x; t -= y; flat(t) }), &map2(&wa, &wb, W::m_sub), true, &show)?;
    v.of(l, "u * v (static)", caught(|| vec![x * y]), &[dots(&wa, &wb)], false, &show)?;
    v.of(l, "u * &v (static)", caught(|| vec![x * &y]), &[dots(&wa, &wb)], false, &show)?;
    let sc: Vec<W> = wa.iter().map(|x| x.m_mul(&w(s))).collect();
    v.of(l, "u * s (static)", caught(|| flat(x * s)), &sc, true, &show)?;
    v.of(l, "u *= s (static)", caught(|| { let mut t = x; t *= s; flat(t) }), &sc, true, &show)?;
    l.case(key_of(&("s", I::NAME, &a, &b)), D > 0);
    Ok(())
}

fn static_matrix<I: MInt>(r: &mut Rng, l: &mut Log, v: &Verdict) -> Res {
    let mag = 1 + r.below(I::BITS as usize / 2 + 1) as u32;
    let gen = |r: &mut Rng, a: usize, b: usize| Mm::<I> { r: a, c: b, v: list(r, a * b, mag) };
    let (a, b, c, d) = (gen(r, 2, 3), gen(r, 2, 3), gen(r, 3, 4), gen(r, 3, 3));
    let vv: Vec<I> = list(r, 3, mag);
    fn st<I: MInt, const R: usize, const C: usize>(m: &Mm<I>) -> SMatrix<I, R, C> {
        SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| *m.at(i, j))))
    }
    // an SMatrix is read by multiplying it with unit vectors (0 and 1 never overflow)
    fn flat<I: MInt, const R: usize, const C: usize>(m: SMatrix<I, R, C>) -> Vec<I> {
        let mut out = vec![I::cut(0); R * C];
        for j in 0..C {
            let e = SVector::from(std::array::from_fn(|k| I::cut((k == j) as i128)));
            let col = &m * &e;
            for i in 0..R {
                out[i * C + j] = col[i];
            }
        }
        out
    }
    let (x, y, z, u) = (st::<I, 2, 3>(&a), st::<I, 2, 3>(&b), st::<I, 3, 4>(&c), st::<I, 3, 3>(&d));
    let wm = |m: &Mm<I>| Mm::<W> { r: m.r, c: m.c, v: ws(&m.v) };
    let (wa, wb, wc, wd) = (wm(&a), wm(&b), wm(&c), wm(&d));
    let show = || format!("{:?}, {:?}, {:?}, {:?}, {vv:?}", a.v, b.v, c.v, d.v);
    v.of(l, "a + b (static matrices)", caught(|| flat(x + y)), &map2(&wa.v, &wb.v, W::m_add), true, &show)?;
    v.of(l, "a - &b (static matrices)", caught(|| flat(x - &y)), &map2(&wa.v, &wb.v, W::m_sub), true, &show)?;
    v.of(l, "-a (static matrix)", caught(|| flat(-x)), &wa.map(|x| x.m_neg()).v, true, &show)?;
    v.of(l, "a * c (static matrices)", caught(|| flat(x * z)), &wa.mul(&wc).v, false, &show)?;
    v.of(l, "&a * &c (static matrices)", caught(|| flat(&x * &z)), &wa.mul(&wc).v, false, &show)?;
    v.of(l, "a *= d (static matrices)", caught(|| { let mut t = x; t *= u; flat(t) }), &wa.mul(&wd).v, false, &show)?;
    let s = SVector::from([vv[0], vv[1], vv[2]]);
    let wv = Mm::<W> { r: 3, c: 1, v: ws(&vv) };
    v.of(l, "a * v (static)", caught(|| (&x * &s).0.to_vec()), &wa.mul(&wv).v, false, &show)?;
    let one: SMatrix<I, 3, 3> = One::one();
    let zero: SMatrix<I, 3, 3> = Zero::zero();
    v.of(l, "d * one - zero (static matrices)", caught(|| flat(u * one - zero)), &wd.v, true, &show)?;
    l.case(key_of(&("sm", I::NAME, &a.v, &c.v)), true);
    Ok(())
}

fn dynamic<I: MInt>(r: &mut Rng, l: &mut Log, v: &Verdict) -> Res {
    let mag = 1 + r.below(I::BITS as usize) as u32;
    let n = if r.chance(1, 30) { r.size(3000) } else { r.size(20) };
    let (a, b): (Vec<I>, Vec<I>) = (list(r, n, mag), list(r, n, mag));
    let vec = |v: &[I]| (&v[..]).eval();
    let (x, y) = (vec(&a), vec(&b));
    let (wa, wb) = (ws(&a), ws(&b));
    let show = || format!("{a:?} and {b:?}");
    let flat = |v: DVector<I>| (0..v.len()).map(|i| v[i]).collect::<Vec<I>>();
    v.of(l, "u + v", caught(|| flat((&x + &y).eval())), &map2(&wa, &wb, W::m_add), true, &show)?;
    v.of(l, "u - v", caught(|| flat((&x - &y).eval())), &map2(&wa, &wb, W::m_sub), true, &show)?;
    v.of(l, "u += v", caught(|| { let mut t = x.clone(); t += &y; flat(t) }), &map2(&wa, &wb, W::m_add), true, &show)?;
    v.of(l, "u -= v", caught(|| { let mut t = x.clone(); t -= &y; flat(t) }), &map2(&wa, &wb, W::m_sub), true, &show)?;
    v.of(l, "u.mul_elemwise(v)", caught(|| flat(x.mul_elemwise(&y).eval())), &map2(&wa, &wb, W::m_mul), true, &show)?;
    v.of(l, "u * v", caught(|| vec![&x * &y]), &[dots(&wa, &wb)], false, &show)?;
    v.of(l, "u * v by value", caught(|| vec![x.clone() * y.clone()]), &[dots(&wa, &wb)], false, &show)?;
    // quotients: zero divisors and MIN / -1 panic in every build, everything else is exact
    let bad = a.iter().zip(&b).any(|(p, q)| q.wide() == 0 || (p.wide() == I::MIN.wide() && q.wide() == -1));
    let got = caught(|| flat(x.div_elemwise(&y).eval()));
    if bad {
        ensure!(got.is_err(), "u.div_elemwise(v) over {} yields {got:?}: {}", I::NAME, show());
        l.count("rejected quotients", 1);
    } else {
        let want: Vec<I> = a.iter().zip(&b).map(|(p, q)| I::cut(p.wide() / q.wide())).collect();
        ensure!(got.as_ref() == Ok(&want), "u.div_elemwise(v) over {}: {got:?}, want {want:?}: {}", I::NAME, show());
    }
    let mag = 1 + r.below(I::BITS as usize / 2 + 1) as u32;
    let (p, q, s) = match r.below(40) {
        0 => (1 + r.below(3), 1 + r.size(400), 1 + r.below(3)),
        1 => (1 + r.size(60), 1 + r.below(3), 1 + r.size(60)),
        _ => (1 + r.below(5), 1 + r.below(6), 1 + r.below(5)),
    };
    let gen = |r: &mut Rng, a: usize, b: usize| Mm::<I> { r: a, c: b, v: list(r, a * b, mag) };
    let (m, k, e) = (gen(r, p, q), gen(r, q, s), gen(r, p, q));
    let mat = |m: &Mm<I>| {
        let w = m.clone();
        make_matrix_expr(m.r, m.c, move |i, j| *w.at(i, j)).eval()
    };
    let (dm, dk, de) = (mat(&m), mat(&k), mat(&e));
    let wm = |m: &Mm<I>| Mm::<W> { r: m.r, c: m.c, v: ws(&m.v) };
    let (wmm, wk, we) = (wm(&m), wm(&k), wm(&e));
    let flat = |x: DMatrix<I>| {
        let mut o = vec![];
        for i in 0..x.num_rows() {
            for j in 0..x.num_cols() {
                o.push(x[[i, j]]);
            }
        }
        o
    };
    let show = || format!("{m:?}, {k:?}, {e:?}");
    v.of(l, "m * k", caught(|| flat((&dm * &dk).eval())), &wmm.mul(&wk).v, false, &show)?;
    v.of(l, "m + e", caught(|| flat((&dm + &de).eval())), &map2(&wmm.v, &we.v, W::m_add), true, &show)?;
    v.of(l, "m - e", caught(|| flat((&dm - &de).eval())), &map2(&wmm.v, &we.v, W::m_sub), true, &show)?;
    v.of(l, "m += e", caught(|| { let mut t = dm.clone(); t += &de; flat(t) }), &map2(&wmm.v, &we.v, W::m_add), true, &show)?;
    v.of(l, "m -= e", caught(|| { let mut t = dm.clone(); t -= &de; flat(t) }), &map2(&wmm.v, &we.v, W::m_sub), true, &show)?;
    v.of(l, "m.mul_elemwise(e)", caught(|| flat(dm.mul_elemwise(&de).eval())), &map2(&wmm.v, &we.v, W::m_mul), true, &show)?;
    v.of(l, "m.h()", caught(|| flat(dm.h().eval())), &wmm.t().v, true, &show)?;
    l.case(key_of(&("d", I::NAME, &a, &b, &m.v, &k.v)), n > 0);
    l.max("length", n as u64);
    Ok(())
}

fn all<I: MInt>(r: &mut Rng, l: &mut Log, v: &Verdict) -> Res {
    l.count(I::NAME, 1);
    match r.below(6) {
        0 | 1 => polys::<I>(r, l, v),
        2 => complex::<I>(r, l, v),
        3 => match r.below(6) {
            4 => static_ones::<I, 33>(r, l, v),
            5 => static_ones::<I, 17>(r, l, v),
            0 => static_ones::<I, 1>(r, l, v),
            1 => static_ones::<I, 2>(r, l, v),
            2 => static_ones::<I, 3>(r, l, v),
            _ => static_ones::<I, 8>(r, l, v),
        },
        4 => static_matrix::<I>(r, l, v),
        _ => dynamic::<I>(r, l, v),
    }
}

fn main() {
    let run = Run::new("C29", "a set of machine-integer operands put through every operation of one container type; each result was exact, wrapped (overflow checks off) or an overflow panic (on)");
    let checks = caught(|| black_box(i8::MAX) + black_box(1i8)).is_err();
    let v = Verdict { checks };
    for k in ["i8", "i16", "i32", "i64", "i128"] {
        run.require(k, 1000);
    }
    run.require("fitting", 50_000);
    run.require("overflowing", 20_000);
    run.require(if checks { "overflow reported" } else { "wrapped" }, 10_000);
    run.require("rejected quotients", 100);
    run.cases("i8", run.n(800, 30_000), |r, l| all::<i8>(r, l, &v));
    run.cases("i16", run.n(400, 15_000), |r, l| all::<i16>(r, l, &v));
    run.cases("i32", run.n(400, 15_000), |r, l| all::<i32>(r, l, &v));
    run.cases("i64", run.n(400, 15_000), |r, l| all::<i64>(r, l, &v));
    run.cases("i128", run.n(400, 15_000), |r, l| all::<i128>(r, l, &v));
    run.finish()
}
