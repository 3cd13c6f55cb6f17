//! Double-double arithmetic (about 106 bits) as an oracle for floating point.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

fn two_sum(a: f64, b: f64) -> DD {
    let s = a + b;
    let bb = s - a;
    DD { hi: s, lo: (a - (s - bb)) + (b - bb) }
}
fn quick(a: f64, b: f64) -> DD {
    let s = a + b;
    DD { hi: s, lo: b - (s - a) }
}
pub fn two_prod(a: f64, b: f64) -> DD {
    let p = a * b;
    DD { hi: p, lo: a.mul_add(b, -p) }
}
impl From<f64> for DD {
    fn from(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
}
impl Add for DD {
    type Output = DD;
    fn add(self, o: DD) -> DD {
        let s = two_sum(self.hi, o.hi);
        let t = two_sum(self.lo, o.lo);
        let u = quick(s.hi, s.lo + t.hi);
        quick(u.hi, u.lo + t.lo)
    }
}
impl Neg for DD {
    type Output = DD;
    fn neg(self) -> DD {
        DD { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for DD {
    type Output = DD;
    fn sub(self, o: DD) -> DD {
        self + -o
    }
}
impl Mul for DD {
    type Output = DD;
    fn mul(self, o: DD) -> DD {
        let p = two_prod(self.hi, o.hi);
        quick(p.hi, p.lo + (self.hi * o.lo + self.lo * o.hi))
    }
}
impl Div for DD {
    type Output = DD;
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        let r = self - o * DD::from(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::from(q2);
        let q3 = r.hi / o.hi;
        quick(q1, q2) + DD::from(q3)
    }
}
const LN2: DD = DD { hi: std::f64::consts::LN_2, lo: 2.319046813846299558e-17 };
// pi/2 in three parts
const PIO2: [f64; 3] = [
    std::f64::consts::FRAC_PI_2,
    6.123233995736766036e-17,
    -1.497384904859169777e-33,
];
pub const PI: DD = DD { hi: std::f64::consts::PI, lo: 1.2246467991473532072e-16 };

impl DD {
    pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
    pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    pub fn scale(self, p: f64) -> DD {
        DD { hi: self.hi * p, lo: self.lo * p }
    }
    pub fn abs(self) -> DD {
        if self.hi < 0.0 {
            -self
        } else {
            self
        }
    }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 {
            return DD::ZERO;
        }
        // scale into the middle of the range by an even power of two
        let e = (self.hi.log2().floor() as i32) & !1;
        let x = self.scale2(-e);
        let y = DD::from(x.hi.sqrt());
        let y = y + (x - y * y) / (y + y);
        let y = y + (x - y * y) / (y + y);
        y.scale2(e / 2)
    }
    pub fn scale2(self, e: i32) -> DD {
        let h = e / 2;
        let (p, q) = (2f64.powi(h), 2f64.powi(e - h));
        self.scale(p).scale(q)
    }
    fn expm1_small(self) -> DD {
        // Taylor for |x| tiny
        let mut term = self;
        let mut sum = self;
        for k in 2..12 {
            term = term * self / DD::from(k as f64);
            sum = sum + term;
        }
        sum
    }
    pub fn exp(self) -> DD {
        if self.hi < -1400.0 {
            return DD::ZERO;
        }
        let k = (self.hi / LN2.hi).round();
        let r = self - LN2 * DD::from(k);
        let mut p = r.scale(1.0 / 512.0).expm1_small();
        for _ in 0..9 {
            p = p + p + p * p;
        }
        (p + DD::ONE).scale2(k as i32)
    }
    pub fn ln(self) -> DD {
        let mut y = DD::from(self.hi.ln());
        for _ in 0..2 {
            y = y + (self * (-y).exp() - DD::ONE);
        }
        y
    }
    pub fn sinh(self) -> DD {
        if self.hi.abs() < 1.0 {
            let x2 = self * self;
            let mut term = self;
            let mut sum = self;
            for k in 1..16 {
                term = term * x2 / DD::from((2 * k * (2 * k + 1)) as f64);
                sum = sum + term;
            }
            return sum;
        }
        (self.exp() - (-self).exp()).scale(0.5)
    }
    pub fn cosh(self) -> DD {
        (self.exp() + (-self).exp()).scale(0.5)
    }
    /// (sin, cos) of a double; accurate for |x| up to about 2^30
    pub fn sin_cos(x: f64) -> (DD, DD) {
        if x.abs() > 1000.0 {
            // only to the precision of f64
            return (DD::from(x.sin()), DD::from(x.cos()));
        }
        let n = (x / PIO2[0]).round();
        let mut r = DD::from(x);
        for c in PIO2 {
            r = r - two_prod(n, c);
        }
        let x2 = r * r;
        let (mut s, mut c) = (r, DD::ONE);
        let (mut ts, mut tc) = (r, DD::ONE);
        for k in 1..16 {
            tc = -(tc * x2) / DD::from(((2 * k - 1) * 2 * k) as f64);
            ts = -(ts * x2) / DD::from((2 * k * (2 * k + 1)) as f64);
            c = c + tc;
            s = s + ts;
        }
        match (n as i64).rem_euclid(4) {
            0 => (s, c),
            1 => (c, -s),
            2 => (-s, -c),
            _ => (-c, s),
        }
    }
    pub fn atan2(y: f64, x: f64) -> DD {
        if y == 0.0 || x == 0.0 {
            // exact axis values
            let th = y.atan2(x);
            return if th == 0.0 {
                DD::from(th)
            } else if x == 0.0 {
                PI.scale(0.5 * th.signum())
            } else {
                PI.scale(th.signum())
            };
        }
        let m = x.abs().max(y.abs());
        let e = -(m.log2().floor() as i32);
        let (xs, ys) = (DD::from(x).scale2(e), DD::from(y).scale2(e));
        let r = (xs * xs + ys * ys).sqrt();
        let t0 = y.atan2(x);
        let (s, c) = DD::sin_cos(t0);
        DD::from(t0) + (ys * c - xs * s) / r
    }
}

#[derive(Clone, Copy, Debug)]
pub struct CD {
    pub re: DD,
    pub im: DD,
}
impl CD {
    pub fn new(re: f64, im: f64) -> CD {
        CD { re: re.into(), im: im.into() }
    }
    pub fn norm2(self) -> DD {
        self.re * self.re + self.im * self.im
    }
    /// modulus, scaled against overflow
    pub fn abs(self) -> DD {
        let m = self.re.hi.abs().max(self.im.hi.abs());
        if m == 0.0 {
            return DD::ZERO;
        }
        let e = m.log2().floor() as i32;
        let z = CD { re: self.re.scale2(-e), im: self.im.scale2(-e) };
        z.norm2().sqrt().scale2(e)
    }
    pub fn sub(self, o: CD) -> CD {
        CD { re: self.re - o.re, im: self.im - o.im }
    }
    pub fn mul(self, o: CD) -> CD {
        CD { re: self.re * o.re - self.im * o.im, im: self.re * o.im + self.im * o.re }
    }
    pub fn div(self, o: CD) -> CD {
        // scale both against overflow
        let m = o.re.hi.abs().max(o.im.hi.abs());
        let e = m.log2().floor() as i32;
        let o = CD { re: o.re.scale2(-e), im: o.im.scale2(-e) };
        let ms = self.re.hi.abs().max(self.im.hi.abs());
        if ms == 0.0 {
            return CD::new(0.0, 0.0);
        }
        let es = ms.log2().floor() as i32;
        let s = CD { re: self.re.scale2(-es), im: self.im.scale2(-es) };
        let n = o.norm2();
        let re = (s.re * o.re + s.im * o.im) / n;
        let im = (s.im * o.re - s.re * o.im) / n;
        CD { re: re.scale2(es - e), im: im.scale2(es - e) }
    }
    pub fn exp(x: f64, y: f64) -> CD {
        let (s, c) = DD::sin_cos(y);
        let e = DD::from(x).exp();
        CD { re: e * c, im: e * s }
    }
    pub fn sin(x: f64, y: f64) -> CD {
        let (s, c) = DD::sin_cos(x);
        let y = DD::from(y);
        CD { re: s * y.cosh(), im: c * y.sinh() }
    }
    pub fn cos(x: f64, y: f64) -> CD {
        let (s, c) = DD::sin_cos(x);
        let y = DD::from(y);
        CD { re: c * y.cosh(), im: -(s * y.sinh()) }
    }
    pub fn sinh(x: f64, y: f64) -> CD {
        let (s, c) = DD::sin_cos(y);
        let x = DD::from(x);
        CD { re: x.sinh() * c, im: x.cosh() * s }
    }
    pub fn cosh(x: f64, y: f64) -> CD {
        let (s, c) = DD::sin_cos(y);
        let x = DD::from(x);
        CD { re: x.cosh() * c, im: x.sinh() * s }
    }
    pub fn tan(x: f64, y: f64) -> CD {
        // (tan x (1 - tanh^2 y) + i tanh y (1 + tan^2 x)) / (1 + tan^2 x tanh^2 y), via
        // sin x cos x / d + i sinh y cosh y / d with d = cos^2 x + sinh^2 y
        let (s, c) = DD::sin_cos(x);
        if y.abs() > 60.0 {
            // d ~ e^(2|y|)/4; im -> +-1, re -> 4 s c e^(-2|y|)
            let e = DD::from(-2.0 * y.abs()).exp();
            return CD { re: s * c * e.scale(4.0), im: DD::from(y.signum()) };
        }
        let yd = DD::from(y);
        let (sh, ch) = (yd.sinh(), yd.cosh());
        let d = c * c + sh * sh;
        CD { re: s * c / d, im: sh * ch / d }
    }
    /// principal square root
    pub fn sqrt(x: f64, y: f64) -> CD {
        if x == 0.0 && y == 0.0 {
            return CD::new(0.0, 0.0);
        }
        let m = x.abs().max(y.abs());
        let e = (m.log2().floor() as i32) & !1;
        let (xs, ys) = (DD::from(x).scale2(-e), DD::from(y).scale2(-e));
        let r = (xs * xs + ys * ys).sqrt();
        // big part first, the other one by division (no cancellation)
        let big = ((r + xs.abs()).scale(0.5)).sqrt();
        let small = ys.abs() / (big + big);
        let (re, im) = if x >= 0.0 { (big, small) } else { (small, big) };
        let im = if y < 0.0 { -im } else { im };
        CD { re: re.scale2(e / 2), im: im.scale2(e / 2) }
    }
    pub fn ln_abs(x: f64, y: f64) -> DD {
        // 0.5 * ln(x^2 + y^2), scaled
        let m = x.abs().max(y.abs());
        let e = m.log2().floor() as i32;
        let (xs, ys) = (DD::from(x).scale2(-e), DD::from(y).scale2(-e));
        (xs * xs + ys * ys).ln().scale(0.5) + LN2 * DD::from(e as f64)
    }
}

/// f32 or f64 under test
pub trait Fl:
    Copy + PartialEq + PartialOrd + std::fmt::Debug + Send + Sync + 'static
{
    const NAME: &'static str;
    const EPS: f64;
    const MIN_POS: f64;
    const MAX: f64;
    const MIN_EXP: i32;
    const MAX_EXP: i32;
    fn from64(x: f64) -> Self;
    fn to64(self) -> f64;
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const MIN_POS: f64 = f32::MIN_POSITIVE as f64;
    const MAX: f64 = f32::MAX as f64;
    const MIN_EXP: i32 = -126;
    const MAX_EXP: i32 = 127;
    fn from64(x: f64) -> f32 {
        x as f32
    }
    fn to64(self) -> f64 {
        self as f64
    }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const MIN_POS: f64 = f64::MIN_POSITIVE;
    const MAX: f64 = f64::MAX;
    const MIN_EXP: i32 = -1022;
    const MAX_EXP: i32 = 1023;
    fn from64(x: f64) -> f64 {
        x
    }
    fn to64(self) -> f64 {
        self
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn identities() {
        for i in 0..2000 {
            let x = (i as f64 - 1000.0) * 0.0371;
            let (s, c) = DD::sin_cos(x);
            assert!((s * s + c * c - DD::ONE).f().abs() < 1e-30);
            let e = DD::from(x).exp() * DD::from(-x).exp() - DD::ONE;
            assert!(e.f().abs() < 1e-28, "{x} {e:?}");
            let ch = DD::from(x).cosh();
            let sh = DD::from(x).sinh();
            let d = (ch * ch - sh * sh - DD::ONE) / (ch * ch);
            assert!(d.f().abs() < 1e-30);
            assert!((s.f() - x.sin()).abs() < 1e-15 && (c.f() - x.cos()).abs() < 1e-15);
            if x > 0.0 {
                let l = DD::from(x).ln();
                assert!((l.exp() - DD::from(x)).f().abs() < 1e-29 * x);
                let q = DD::from(x).sqrt();
                assert!((q * q - DD::from(x)).f().abs() < 1e-30 * x);
            }
            let t = DD::atan2(x, 0.7);
            assert!((t.f() - x.atan2(0.7)).abs() < 1e-15);
        }
    }
}
