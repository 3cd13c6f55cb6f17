//! C01: polynomial + - neg * are coefficient-exact in all operator forms.
use harness::elems::*;
use harness::run::{key_of, Log, Res, Rng, Run};
use harness::{ensure, poly};
use magnesia::algebra::{Complex, MulRefs, Polynomial, Ring};

type P<T> = Polynomial<T>;

fn build<T: Ring + Clone>(r: &mut Rng, c: &[T]) -> P<T> {
    // spare capacity must not matter
    let mut v = Vec::with_capacity(c.len() + if r.chance(1, 3) { r.below(64) } else { 0 });
    v.extend_from_slice(c);
    P::from_coefficients(v)
}

fn matches<T: El + Ring>(op: &str, got: &P<T>, want: &[T], a: &[T], b: &[T], x: &[T]) -> Res {
    let w = P::from_coefficients(want.to_vec());
    ensure!(
        *got == w && w == *got,
        "{} over {}: a={a:?} b={b:?}: got {got:?}, want coefficients {want:?}",
        op, T::NAME
    );
    for x in x {
        let (g, m) = (got.eval_ref(x), poly::eval(want, x));
        ensure!(
            g.same(&m),
            "{} over {}: a={a:?} b={b:?}: result evaluates to {g:?} at {x:?}, want {m:?}",
            op, T::NAME
        );
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check<T: El + Ring>(r: &mut Rng, l: &mut Log, a: &[T], b: &[T], xs: &[T], mult: bool) -> Res {
    let key = key_of(&(T::NAME, a, b));
    l.case(key, a.len() + b.len() >= 2 && a != b);
    l.max("len", a.len().max(b.len()) as u64);
    if a.len() < b.len() {
        l.count("left_shorter", 1);
    } else if a.len() > b.len() {
        l.count("left_longer", 1);
    }
    l.sample(|| format!("{}: a={a:?} b={b:?}", T::NAME));
    let p = build(r, a);
    let q = build(r, b);

    let s = poly::add(a, b);
    matches("a + b", &(p.clone() + q.clone()), &s, a, b, xs)?;
    let mut t = build(r, a);
    t += q.clone();
    matches("a += b", &t, &s, a, b, xs)?;
    let mut t = build(r, a);
    t += &q;
    matches("a += &b", &t, &s, a, b, xs)?;

    let d = poly::sub(a, b);
    matches("a - b", &(p.clone() - q.clone()), &d, a, b, xs)?;
    let mut t = build(r, a);
    t -= q.clone();
    matches("a -= b", &t, &d, a, b, xs)?;
    let mut t = build(r, a);
    t -= &q;
    matches("a -= &b", &t, &d, a, b, xs)?;

    matches("-a", &(-p.clone()), &poly::neg(a), a, b, xs)?;

    if mult {
        l.count("products", 1);
        let m = poly::mul(a, b);
        matches("&a * &b", &(&p * &q), &m, a, b, xs)?;
        matches("a * b", &(p.clone() * q.clone()), &m, a, b, xs)?;
        matches("a.mul_refs(&b)", &p.mul_refs(&q), &m, a, b, xs)?;
        let mut t = build(r, a);
        t *= q.clone();
        matches("a *= b", &t, &m, a, b, xs)?;
        if a.len() < 40 {
            matches("&a * &a", &(&p * &p), &poly::mul(a, a), a, a, xs)?;
        }
    }
    // operands by reference are untouched
    matches("operand a afterwards", &p, a, a, b, &[])?;
    matches("operand b afterwards", &q, b, a, b, &[])
}

fn pair<T: El>(r: &mut Rng, la: usize, lb: usize) -> (Vec<T>, Vec<T>) {
    let a = gen_vec::<T>(r, la);
    let b = gen_related::<T>(r, &a, lb);
    (a, b)
}

macro_rules! narrow {
    ($name:ident, $t:ty) => {
        /// extreme coefficients of a narrow type: every representable result must be produced
        fn $name(r: &mut Rng, l: &mut Log) -> Res {
            let gen = |r: &mut Rng| -> i128 {
                match r.below(8) {
                    0 => <$t>::MIN as i128,
                    1 => <$t>::MAX as i128,
                    2 => 0,
                    3 => -1,
                    4 => 1,
                    5 => <$t>::MIN as i128 + 1,
                    _ => (r.u64() as $t) as i128,
                }
            };
            let ok = |x: i128| x >= <$t>::MIN as i128 && x <= <$t>::MAX as i128;
            let (la, lb) = (r.below(7), r.below(7));
            let mut a = vec![0i128; la];
            let mut b = vec![0i128; lb];
            let minus = r.chance(2, 3);
            for i in 0..la.max(lb) {
                loop {
                    let x = if i < la { gen(r) } else { 0 };
                    let y = if i < lb { gen(r) } else { 0 };
                    if ok(if minus { x - y } else { x + y }) {
                        if i < la {
                            a[i] = x;
                        }
                        if i < lb {
                            b[i] = y;
                        }
                        break;
                    }
                }
            }
            l.case(key_of(&(stringify!($t), &a, &b, minus)), la + lb >= 2);
            l.count("narrow_extreme", (b.contains(&(<$t>::MIN as i128))) as u64);
            l.sample(|| format!("{}: minus={minus} a={a:?} b={b:?}", stringify!($t)));
            let v = |c: &[i128]| P::from_coefficients(c.iter().map(|x| *x as $t).collect::<Vec<_>>());
            let want: Vec<i128> = (0..la.max(lb))
                .map(|i| {
                    let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
                    if minus { x - y } else { x + y }
                })
                .collect();
            let forms: [(&str, fn(P<$t>, P<$t>) -> P<$t>); 3] = if minus {
                [
                    ("a - b", |p, q| p - q),
                    ("a -= b", |mut p, q| { p -= q; p }),
                    ("a -= &b", |mut p, q| { p -= &q; p }),
                ]
            } else {
                [
                    ("a + b", |p, q| p + q),
                    ("a += b", |mut p, q| { p += q; p }),
                    ("a += &b", |mut p, q| { p += &q; p }),
                ]
            };
            for (name, f) in forms {
                let got = harness::run::caught(|| f(v(&a), v(&b)))
                    .map_err(|e| format!("{name} over {}: a={a:?} b={b:?}: {e}", stringify!($t)))?;
                ensure!(got == v(&want), "{name} over {}: a={a:?} b={b:?}: got {got:?} want {want:?}", stringify!($t));
            }
            Ok(())
        }
    };
}
narrow!(narrow_i8, i8);
narrow!(narrow_i32, i32);

fn main() {
    let run = Run::new(
        "C01",
        "a case is a pair of coefficient lists over one ring with all operator forms applied; \
         non-trivial if the operands differ and have at least two coefficients together",
    );
    run.require("products", 500);
    run.require("left_shorter", 300);
    run.require("left_longer", 300);
    run.require("narrow_extreme", 50);
    // every pair of lengths up to 20
    run.cases_i("lengths-zp", run.n(21 * 21, 41 * 41), |i, r, l| {
        let m = if run.thorough { 41 } else { 21 };
        let (a, b) = pair::<Zp>(r, i as usize / m % m, i as usize % m);
        let xs = [Zp(3), Zp::gen(r)];
        check(r, l, &a, &b, &xs, true)
    });
    run.cases_i("lengths-nc", run.n(13 * 13, 31 * 31), |i, r, l| {
        let m = if run.thorough { 31 } else { 13 };
        let (a, b) = pair::<Nc>(r, i as usize / m % m, i as usize % m);
        let xs = [Nc::gen(r)];
        check(r, l, &a, &b, &xs, true)
    });
    run.cases_i("symbolic", run.n(8 * 8 * 6, 8 * 8 * 60), |i, r, l| {
        let (a, b) = pair::<Free>(r, i as usize / 8 % 8, i as usize % 8);
        check(r, l, &a, &b, &[Free::sym(0x7fff)], true)
    });
    run.cases("random-zp", run.n(1500, 40000), |r, l| {
        let (la, lb) = (r.size(300), r.size(300));
        let (a, b) = pair::<Zp>(r, la, lb);
        let xs = [Zp::gen(r)];
        check(r, l, &a, &b, &xs, true)
    });
    run.cases("random-i64", run.n(1500, 40000), |r, l| {
        let (la, lb) = (r.size(260), r.size(260));
        let (a, b) = pair::<i64>(r, la, lb);
        check(r, l, &a, &b, &[0, 1, -1], true)
    });
    run.cases("random-f64", run.n(600, 10000), |r, l| {
        // integer-valued doubles: exact
        let (la, lb) = (r.size(80), r.size(80));
        let (a, b) = pair::<i64>(r, la, lb);
        let f = |v: Vec<i64>| v.into_iter().map(|x| x as f64).collect::<Vec<_>>();
        check(r, l, &f(a), &f(b), &[0.0, 1.0, -1.0], true)
    });
    run.cases("random-complex", run.n(600, 10000), |r, l| {
        let (la, lb) = (r.size(60), r.size(60));
        let (a, b) = pair::<Complex<Zp>>(r, la, lb);
        let xs = [Complex::gen(r)];
        check(r, l, &a, &b, &xs, true)
    });
    run.cases("long", run.n(40, 600), |r, l| {
        let (la, lb) = (r.below(4097), r.below(r.clone().below(4096) + 1));
        let (a, b) = pair::<Zp>(r, la, lb);
        let mult = la * lb < 300_000;
        check(r, l, &a, &b, &[], mult)
    });
    // beyond 2^16 coefficients
    run.cases("huge", run.n(3, 60), |r, l| {
        let la = r.huge();
        let lb = match r.below(3) {
            0 => r.huge(),
            1 => la + r.below(3) - 1,
            _ => 1 + r.below(4),
        };
        let (a, b) = pair::<Zp>(r, la, lb);
        let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
        l.count("operands beyond 2^16", (la.max(lb) > 65_536) as u64);
        check(r, l, &a, &b, &[], lb < 5)
    });
    run.cases("narrow-i8", run.n(3000, 100000), narrow_i8);
    run.cases("narrow-i32", run.n(1500, 50000), narrow_i32);
    run.finish()
}
