//! C15: the inner product of dynamically sized vectors.
use harness::dd::{two_prod, DD};
use harness::elems::*;
use harness::ensure;
use harness::expr::{dv, is_vec};
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::Complex;
use magnesia::linalg::VectorExpr;

fn both<T: LibEl>(u: &[T], v: &[T]) -> (T, T) {
    let (x, y) = (dv(u), dv(v));
    (&x * &y, x * y)
}

fn one<T: LibEl>(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let u = gen_vec::<T>(r, n);
    let v = gen_related::<T>(r, &u, n);
    l.case(key_of(&(T::NAME, &u, &v)), n >= 1);
    l.count(T::NAME, 1);
    l.max("length", n as u64);
    if n == 0 {
        l.count("length_0", 1);
    }
    l.sample(|| format!("{}: u={u:?} v={v:?}", T::NAME));
    let w = u.iter().zip(&v).fold(T::m_zero(), |s, (x, y)| s.m_add(&x.m_conj().m_mul(y)));
    let (x, y) = (dv(&u), dv(&v));
    let by_ref = &x * &y;
    is_vec(&x, &u, "left operand of the inner product")?;
    is_vec(&y, &v, "right operand of the inner product")?;
    let again = &x * &y;
    let by_val = x * y;
    ensure!(
        by_ref.same(&w) && by_val.same(&w) && again.same(&w),
        "inner product over {} of length {n}: u={u:?} v={v:?}: by reference {by_ref:?}, by value {by_val:?}, want {w:?}",
        T::NAME
    );
    let x = dv(&u);
    let sq = &x * &x;
    let w = u.iter().fold(T::m_zero(), |s, x| s.m_add(&x.m_conj().m_mul(x)));
    ensure!(sq.same(&w), "u*u over {}: u={u:?}: {sq:?}, want {w:?}", T::NAME);
    Ok(())
}

fn laws<T: LibEl>(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let (u, v) = (gen_vec::<T>(r, n), gen_vec::<T>(r, n));
    let u2 = gen_related::<T>(r, &u, n);
    let v2 = gen_related::<T>(r, &v, n);
    let s = T::gen(r);
    l.case(key_of(&("laws", T::NAME, &u, &v, &v2)), n >= 1);
    l.count("laws", 1);
    let ctx = || format!("over {}: u={u:?} u'={u2:?} v={v:?} v'={v2:?} s={s:?}", T::NAME);
    let (x, y, x2, y2) = (dv(&u), dv(&v), dv(&u2), dv(&v2));
    let xy = &x * &y;
    ensure!(&x * &(&y + &y2).eval() == xy.m_add(&(&x * &y2)), "u*(v+v') != u*v + u*v' {}", ctx());
    ensure!(&(&x + &x2).eval() * &y == xy.m_add(&(&x2 * &y)), "(u+u')*v != u*v + u'*v {}", ctx());
    let t = s.clone();
    let ys = y.wrap().map(move |e| e.m_mul(&t)).eval();
    ensure!(&x * &ys == xy.m_mul(&s), "u*(v s) != (u*v) s {}", ctx());
    let t = s.clone();
    let xs = x.wrap().map(move |e| e.m_mul(&t)).eval();
    let y = dv(&v);
    if T::COMMUTES {
        ensure!(&xs * &y == s.m_conj().m_mul(&xy), "(u s)*v != conj(s) (u*v) {}", ctx());
        let (p, q) = both(&v, &u);
        ensure!(p.m_conj() == xy && q.m_conj() == xy, "u*v != conj(v*u) {}", ctx());
        l.count("symmetry", 1);
    }
    Ok(())
}

/// u*u is real and the sum of the squared norms (exact ring)
fn norm(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let u = gen_vec::<Complex<Zp>>(r, n);
    l.case(key_of(&("norm", &u)), n >= 1);
    l.count("norms", 1);
    let w = u.iter().fold(Zp(0), |s, z| s.m_add(&z.re.m_mul(&z.re)).m_add(&z.im.m_mul(&z.im)));
    let (p, q) = both(&u, &u);
    ensure!(p.im == Zp(0) && q.im == Zp(0) && p.re == w && q.re == w, "u*u over Complex<Zp>: u={u:?}: {p:?}, want {w:?}");
    Ok(())
}

fn float(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let f = |r: &mut Rng| (r.unit() - 0.5) * 2f64.powi(r.range(-20, 20) as i32);
    let c = |r: &mut Rng| Complex::new(f(r), f(r));
    let u: Vec<_> = (0..n).map(|_| c(r)).collect();
    let v: Vec<_> = (0..n).map(|_| c(r)).collect();
    l.case(key_of(&("float", &u)), n >= 1);
    l.count("float", 1);
    let (mut re, mut im, mut mr, mut mi) = (DD::ZERO, DD::ZERO, 0.0, 0.0);
    for (a, b) in u.iter().zip(&v) {
        re = re + two_prod(a.re, b.re) + two_prod(a.im, b.im);
        im = im + two_prod(a.re, b.im) - two_prod(a.im, b.re);
        mr += (a.re * b.re).abs() + (a.im * b.im).abs();
        mi += (a.re * b.im).abs() + (a.im * b.re).abs();
    }
    let (p, q) = both(&u, &v);
    for g in [p, q] {
        let t = (n as f64 + 4.0) * f64::EPSILON;
        ensure!(
            (DD::from(g.re) - re).f().abs() <= t * mr && (DD::from(g.im) - im).f().abs() <= t * mi,
            "u*v over Complex<f64> of length {n}: u={u:?} v={v:?}: {g:?}, exact ({:e},{:e})", re.f(), im.f()
        );
    }
    Ok(())
}

fn main() {
    let run = Run::new("C15", "a case is a pair of equally long vectors over one ring; non-trivial if not empty");
    for k in ["Zp", "Nc", "Free", "i64", "laws", "symmetry", "norms", "float", "length_0"] {
        run.require(k, 100);
    }
    run.cases("definition", run.n(6000, 300_000), |r, l| {
        let n = r.size(300);
        match r.below(6) {
            0 => one::<Zp>(r, l, n),
            1 => one::<Nc>(r, l, n),
            2 => one::<Complex<Zp>>(r, l, n),
            3 => one::<Free>(r, l, n.min(40)),
            4 => one::<i64>(r, l, n),
            _ => one::<Complex<Free>>(r, l, n.min(10)),
        }
    });
    run.cases("large", run.n(3, 200), |r, l| {
        let n = r.pick(&[511, 512, 513, 1000, 1024, 1025, 2047, 2049, 4096, 4099, 5000, 8193]) + r.below(2);
        match r.below(5) {
            0 => one::<Zp>(r, l, n),
            1 => one::<Nc>(r, l, n),
            2 => one::<Complex<Zp>>(r, l, n),
            3 => one::<Free>(r, l, 70 + n % 60),
            _ => laws::<Complex<Zp>>(r, l, n),
        }
    });
    run.require("huge", 50);
    run.cases("huge", run.n(2, 60), |r, l| {
        let n = r.huge();
        l.count("huge", 1);
        match r.below(4) {
            0 => one::<Zp>(r, l, n),
            1 => one::<i64>(r, l, n),
            2 => one::<Nc>(r, l, n),
            _ => norm(r, l, n),
        }
    });
    run.cases("laws", run.n(2000, 100_000), |r, l| {
        let n = r.size(60);
        match r.below(4) {
            0 => laws::<Zp>(r, l, n),
            1 => laws::<Nc>(r, l, n),
            2 => laws::<Complex<Zp>>(r, l, n),
            _ => laws::<Free>(r, l, n.min(8)),
        }
    });
    run.cases("norm", run.n(1000, 50_000), |r, l| {
        let n = r.size(300);
        norm(r, l, n)
    });
    run.cases("float", run.n(1000, 50_000), |r, l| {
        let n = r.size(300);
        float(r, l, n)
    });
    run.finish()
}
