//! P12: RobustFpt and RobustDif. P13: ExtendedInt. P14: ExtendedExponentFpt.
//! Exhaustive exploration of operation sequences on the real types next to an exact model.
use crate::big::*;
use crate::diag::guard;
use crate::run::*;
use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
use boostvoronoi_ext::extended_int::ExtendedInt;
use boostvoronoi_ext::robust_fpt::{RobustDif, RobustFpt};
use num_traits::{One, Zero};
use std::collections::HashSet;

type Xf = ExtendedExponentFpt<f64>;

// ------------------------------------------------------------------------------------ P13
#[derive(Clone)]
struct Int {
    x: ExtendedInt,
    v: Big,
    t: String,
}

/// Everything that can be observed of `x` agrees with the exact value `v`.
fn int_agrees(x: &ExtendedInt, v: &Big, deep: bool) -> Result<(), String> {
    let s = v.sign();
    if x.is_pos() != (s > 0) || x.is_neg() != (s < 0) || ExtendedInt::is_zero(x) != (s == 0) {
        return Err(format!(
            "is_pos/is_neg/is_zero are {}/{}/{} for the value {}",
            x.is_pos(),
            x.is_neg(),
            ExtendedInt::is_zero(x),
            v.hex()
        ));
    }
    if x.size() != v.m.len() {
        return Err(format!("size() is {}, the value {} has {} words", x.size(), v.hex(), v.m.len()));
    }
    let (m, e) = x.p();
    if !m.is_finite() {
        return Err(format!("p() is ({m:e}, {e}) for the value {}", v.hex()));
    }
    let ex = Dy::big(v);
    let got = Dy::f(m).exp(e as i64);
    let exact = v.bits() <= 53 + v.tz();
    if (exact && got.sub(&ex).sign() != 0) || !got.near(&ex, 51) {
        return Err(format!("p() is ({m:e}, {e}), the value is {}", v.hex()));
    }
    let d = x.d();
    if v.bits() < 1024 {
        let dd = if d.is_finite() { Dy::f(d) } else { Dy::int(0) };
        if (exact && dd.sub(&ex).sign() != 0) || !dd.near(&ex, 51) {
            return Err(format!("d() is {d:e}, the value is {}", v.hex()));
        }
    } else if v.bits() > 1024 && d != if s > 0 { f64::INFINITY } else { f64::NEG_INFINITY } {
        return Err(format!("d() is {d:e}, the value is {}", v.hex()));
    }
    if deep {
        // the same value put together word by word must cancel it exactly
        let base = ExtendedInt::from(1i64 << 32);
        let mut y = ExtendedInt::zero();
        for w in v.m.iter().rev() {
            y = &y * &base + ExtendedInt::from(*w as i64);
        }
        if v.neg {
            y = -y;
        }
        let (p, q) = (x - &y, &y - x);
        if !ExtendedInt::is_zero(&p) || !ExtendedInt::is_zero(&q) || p.d() != 0.0 || q.size() != 0 {
            return Err(format!("differs by {:e} from the value {} put together from its words", p.d(), v.hex()));
        }
        if !Zero::is_zero(&p) || Zero::is_zero(x) != (s == 0) {
            return Err("Zero::is_zero is wrong".into());
        }
    }
    Ok(())
}

const OPS: [char; 3] = ['+', '-', '*'];

fn int_op(o: char, a: &ExtendedInt, b: &ExtendedInt) -> ExtendedInt {
    match o {
        '+' => a + b,
        '-' => a - b,
        _ => a * b,
    }
}

fn big_op(o: char, a: &Big, b: &Big) -> Big {
    match o {
        '+' => a.add(b),
        '-' => a.sub(b),
        _ => a.mul(b),
    }
}

/// All spellings of one operation give the same.
fn int_variants(o: char, a: &ExtendedInt, b: &ExtendedInt) -> Result<(), String> {
    let r = int_op(o, a, b);
    let (x, y) = match o {
        '+' => (a.clone() + b.clone(), a.clone() + b),
        '-' => (a.clone() - b.clone(), a.clone() - b),
        _ => (a.clone() * b.clone(), a.clone() * b),
    };
    for (n, z) in [("value op value", x), ("value op reference", y)] {
        if z.p() != r.p() || z.size() != r.size() || z.is_neg() != r.is_neg() || z.is_pos() != r.is_pos() {
            return Err(format!("{n} gives {:?}, reference op reference gives {:?}", z.p(), r.p()));
        }
    }
    Ok(())
}

fn int_alphabet(ctx: &Ctx, n: usize) -> Vec<Int> {
    let b = 1i64 << 32;
    let all: Vec<i64> = vec![
        0, 1, -1, 2, -3, 0x7fff_ffff, -0x8000_0000, b - 1, b, -b, 1 - b, b + 1, i64::MAX, i64::MIN, 1 << 62, -(1 << 62) - 1,
        0x5555_5555_aaaa_aaaa, i64::MAX - (b - 1), 0x8000_0000, -b - 1, 10, 2 * b - 1, 3 * b, -(1 << 53) - 1,
        (1 << 53) + 1, i64::MIN + 1, -(b >> 1) + 1, 0x7fff_ffff_0000_0001,
    ];
    all.into_iter()
        .take(n)
        .filter_map(|v| match guard(|| Ok(ExtendedInt::from(v))) {
            Ok(x) => Some(Int { x, v: Big::from(v as i128), t: format!("{v}") }),
            Err(e) => {
                ctx.violation(&format!("from {v} as i64"), &e);
                None
            }
        })
        .collect()
}

pub fn p13(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("values of up to 64 words; unsigned 64 bit sources up to i64::MAX (the constructor is documented for i64)");
    let alpha = int_alphabet(ctx, 28);
    // constructors
    ctx.explore("P13 construction: all of i8, u8, i16, u16; powers of two +-2 as i32, u32, i64, u64, isize; zero, one, default", 1, |_, w| {
        macro_rules! from {
            ($t:ty, $it:expr) => {
                for v in $it {
                    let v: $t = v;
                    let case = format!("from {v} as {}", stringify!($t));
                    w.states += 1;
                    w.traces += 1;
                    match guard(|| Ok::<_, String>(ExtendedInt::from(v))) {
                        Ok(x) => {
                            for (n, c) in [("", guard(|| int_agrees(&x, &Big::from(v as i128), true))), ("-", guard(|| int_agrees(&-x.clone(), &Big::from(-(v as i128)), true)))] {
                                if let Err(e) = c {
                                    ctx.violation(&case, &format!("{n}ExtendedInt: {e}"));
                                }
                            }
                        }
                        Err(e) => ctx.violation(&case, &e),
                    }
                }
            };
        }
        from!(i8, i8::MIN..=i8::MAX);
        from!(u8, u8::MIN..=u8::MAX);
        from!(i16, i16::MIN..=i16::MAX);
        from!(u16, u16::MIN..=u16::MAX);
        let mut l: Vec<i128> = Vec::new();
        for k in 0..=63 {
            for d in -2..=2 {
                l.push((1 << k) + d);
                l.push(-(1 << k) + d);
            }
        }
        from!(i32, l.iter().filter_map(|v| i32::try_from(*v).ok()));
        from!(u32, l.iter().filter_map(|v| u32::try_from(*v).ok()));
        from!(i64, l.iter().filter_map(|v| i64::try_from(*v).ok()));
        from!(isize, l.iter().filter_map(|v| isize::try_from(*v).ok()));
        from!(u64, l.iter().filter(|v| **v <= i64::MAX as i128).filter_map(|v| u64::try_from(*v).ok()));
        for (n, x, v) in [("zero", ExtendedInt::zero(), 0), ("default", ExtendedInt::default(), 0), ("one", ExtendedInt::one(), 1)] {
            if let Err(e) = guard(|| int_agrees(&x, &Big::from(v), true)) {
                ctx.violation(n, &e);
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    // levels of expressions over the alphabet, one representative per value
    let step = |name: &str, l: &[Int], r: &[Int]| -> Vec<Int> {
        let out = std::sync::Mutex::new(Vec::new());
        ctx.explore(name, l.len(), |i, w| {
            let a = &l[i];
            w.mark(|| format!("{} op ..", a.t));
            let mut o = Vec::new();
            for b in r {
                for op in OPS {
                    for (p, s) in [(a, b), (b, a)] {
                        let t = format!("({} {op} {})", p.t, s.t);
                        let res = guard(|| {
                            let x = int_op(op, &p.x, &s.x);
                            let v = big_op(op, &p.v, &s.v);
                            int_agrees(&x, &v, true)?;
                            int_variants(op, &p.x, &s.x)?;
                            let n = -x.clone();
                            int_agrees(&n, &v.neg(), false)?;
                            Ok((x, v))
                        });
                        w.states += 1;
                        w.transitions += 1;
                        w.traces += 1;
                        match res {
                            Ok((x, v)) => o.push(Int { x, v, t }),
                            Err(e) => ctx.violation(&t, &e),
                        }
                    }
                }
            }
            // multiplication with an i32
            for k in [0, 1, -1, 2, 3, -7, 0x10000, i32::MAX, i32::MIN, i32::MIN + 1] {
                let t = format!("({} * {k}i32)", a.t);
                w.transitions += 1;
                w.traces += 1;
                match guard(|| int_agrees(&(a.x.clone() * k), &a.v.mul(&Big::from(k as i128)), true)) {
                    Ok(()) => (),
                    Err(e) => ctx.violation(&t, &e),
                }
            }
            w.end();
            out.lock().unwrap().push((i, o));
        });
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|o| o.0);
        let mut seen = HashSet::new();
        out.into_iter().flat_map(|o| o.1).filter(|s| seen.insert(s.v.clone())).collect()
    };
    let l1 = step("P13 all a op b over the alphabet of integers, op in + - *, both orders, all operator spellings, and a * i32", &alpha, &alpha);
    if ctx.stopped() {
        return;
    }
    let l2 = step("P13 all (a op b) op c", &l1, &alpha);
    if ctx.stopped() {
        return;
    }
    ctx.add("distinct values with one operation", l1.len() as u64);
    ctx.add("distinct values with two operations", l2.len() as u64);
    for s in l2.iter().step_by(1 + l2.len() / 5) {
        ctx.sample(format!("{} = {}", s.t, s.v.hex()));
    }
    let pairs = |name: &str, l: &[Int], r: &[Int]| {
        ctx.explore(name, l.len(), |i, w| {
            let a = &l[i];
            w.mark(|| format!("{} op ..", a.t));
            for b in r {
                for (op, swap) in [('+', false), ('-', false), ('-', true), ('*', false)] {
                    let (p, s) = if swap { (b, a) } else { (a, b) };
                    let res = guard(|| int_agrees(&int_op(op, &p.x, &s.x), &big_op(op, &p.v, &s.v), false));
                    w.transitions += 1;
                    w.traces += 1;
                    if let Err(e) = res {
                        ctx.violation(&format!("({} {op} {})", p.t, s.t), &e);
                    }
                }
            }
            w.states += r.len() as u64;
            w.end();
        });
    };
    pairs("P13 all (a op b) op (c op d)", &l1, &l1);
    pairs("P13 all ((a op b) op c) op (d op e)", &l2, &l1);
    // words from a small set, every combination
    let words = [0u32, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let len = if q { 4 } else { 5 };
    let built = guard(|| {
        let base = ExtendedInt::from(1i64 << 32);
        let mut pats: Vec<Int> = Vec::new();
        for k in 0..words.len().pow(len) {
            let (mut x, mut v, mut c) = (ExtendedInt::zero(), Big::default(), k);
            for _ in 0..len {
                let d = words[c % words.len()];
                c /= words.len();
                x = &x * &base + ExtendedInt::from(d as i64);
                v = v.shl(32).add(&Big::from(d as i128));
            }
            pats.push(Int { x: -x.clone(), v: v.neg(), t: v.neg().hex() });
            pats.push(Int { x, t: v.hex(), v });
        }
        Ok(pats)
    });
    match built {
        Ok(pats) => pairs(&format!("P13 all a op b for integers of up to {len} words from 0, 1, 2^31-1, 2^31, 2^32-1, both signs"), &pats, &pats),
        Err(e) => ctx.violation("putting integers together from their words", &e),
    }
    if !q && !ctx.stopped() {
        let (alpha, mut seen) = (int_alphabet(ctx, 20), HashSet::new());
        let vals: HashSet<Big> = alpha.iter().map(|a| a.v.clone()).collect();
        let m1 = step("P13 a op b over the first 20 integers", &alpha, &alpha);
        let m2 = step("P13 (a op b) op c over the first 20 integers", &m1, &alpha);
        let m3: Vec<Int> = step("P13 ((a op b) op c) op d over the first 20 integers", &m2, &alpha);
        let all: Vec<Int> = m2.iter().filter(|s| !vals.contains(&s.v) && seen.insert(s.v.clone())).cloned().collect();
        pairs("P13 all pairs of values with two operations over the first 20 integers", &all, &all);
        pairs("P13 all pairs of a value with three and a value with one operation over the first 20 integers", &m3, &m1);
    }
    // long products and their cancellation: squares up to 64 words
    ctx.explore("P13 x^(2^k) up to 64 words for all x with at most two operations, (x^n +- 1) - x^n, x^n - (x^n +- y)", l2.len(), |i, w| {
        let a = &l2[i];
        let (mut x, mut v) = (a.x.clone(), a.v.clone());
        let mut k = 0;
        while v.m.len() <= 32 && k < 6 {
            k += 1;
            let t = format!("{}^{}", a.t, 1 << k);
            w.mark(|| t.clone());
            let r = guard(|| {
                x = &x * &x;
                v = v.mul(&v);
                int_agrees(&x, &v, k < 4)?;
                for c in &alpha {
                    let y = &x + &c.x;
                    let u = v.add(&c.v);
                    int_agrees(&y, &u, false)?;
                    int_agrees(&(&y - &x), &c.v, false)?;
                    int_agrees(&(&x - &y), &c.v.neg(), false)?;
                }
                Ok(())
            });
            w.transitions += 1 + 3 * alpha.len() as u64;
            w.states += 1;
            w.traces += 1;
            if let Err(e) = r {
                ctx.violation(&t, &e);
                break;
            }
            if v.m.len() <= 1 {
                break;
            }
        }
        w.end();
    });
}

// ------------------------------------------------------------------------------------ P14
fn xf(a: &Xf) -> Dy {
    Dy::f(a.val()).exp(a.exp() as i64)
}

fn xt(a: &Xf) -> String {
    format!("{:e}*2^{}", a.val(), a.exp())
}

/// The observers of `a` agree with its value; `want` is the exact result it stands for.
fn xf_agrees(a: &Xf, want: &Dy) -> Result<(), String> {
    if !a.val().is_finite() {
        return Err(format!("the value is {}", xt(a)));
    }
    let s = want.sign();
    if a.is_pos() != (s > 0) || a.is_neg() != (s < 0) || a.is_zero() != (s == 0) {
        return Err(format!("is_pos/is_neg/is_zero are {}/{}/{} for {}, exactly {}", a.is_pos(), a.is_neg(), a.is_zero(), xt(a), want.text()));
    }
    if !xf(a).near(want, 52) {
        return Err(format!("the result is {}, exactly {}", xt(a), want.text()));
    }
    let d = a.d();
    let f: f64 = (*a).into();
    if d.to_bits() != f.to_bits() {
        return Err(format!("d() is {d:e}, into f64 gives {f:e}"));
    }
    let v = xf(a);
    let top = v.top();
    if s == 0 {
        if d != 0.0 {
            return Err(format!("d() of zero is {d:e}"));
        }
    } else if top > 1024 {
        if d != if s > 0 { f64::INFINITY } else { f64::NEG_INFINITY } {
            return Err(format!("d() is {d:e} for {}", xt(a)));
        }
    } else if top > -1021 {
        if !d.is_finite() || Dy::f(d).sub(&v).sign() != 0 {
            return Err(format!("d() is {d:e} for {}", xt(a)));
        }
    } else {
        // subnormal: to the nearest multiple of 2^-1074, up to double rounding
        let err = Dy::f(d).sub(&v).abs();
        if !err.le(&Dy::int(1).exp(-1074)) {
            return Err(format!("d() is {d:e} for {}", xt(a)));
        }
    }
    Ok(())
}

/// |r - n/d| <= 2^-52 |n/d|
fn xf_quotient(r: &Xf, n: &Dy, d: &Dy) -> Result<(), String> {
    if !r.val().is_finite() || !xf(r).mul(d).near(n, 52) || r.is_zero() != (n.sign() == 0) || r.is_neg() != (n.sign() * d.sign() < 0) {
        return Err(format!("the quotient is {}, exactly ({})/({})", xt(r), n.text(), d.text()));
    }
    xf_agrees(r, &xf(r))
}

fn xf_same(n: &str, a: &Xf, b: &Xf) -> Result<(), String> {
    if xf(a).sub(&xf(b)).sign() != 0 {
        return Err(format!("{n} gives {}, the operator gives {}", xt(a), xt(b)));
    }
    if xf_agrees(a, &xf(b)).is_err() {
        return Err(format!("{n} gives {}", xt(a)));
    }
    Ok(())
}

const XOPS: [&str; 4] = ["+", "-", "*", "/"];

/// One operation, in all its spellings; returns the result.
fn xf_op(o: usize, a: &Xf, b: &Xf) -> Result<Option<Xf>, String> {
    let (x, y) = (xf(a), xf(b));
    let mut c = *a;
    let r = match o {
        0 => {
            let r = *a + *b;
            xf_agrees(&r, &x.add(&y))?;
            c += *b;
            xf_agrees(&c, &x.add(&y)).map_err(|e| format!("+=: {e}"))?;
            r
        }
        1 => {
            let r = *a - *b;
            xf_agrees(&r, &x.sub(&y))?;
            c -= *b;
            xf_agrees(&c, &x.sub(&y)).map_err(|e| format!("-=: {e}"))?;
            r
        }
        2 => {
            let r = *a * *b;
            xf_agrees(&r, &x.mul(&y))?;
            c *= *b;
            xf_agrees(&c, &x.mul(&y)).map_err(|e| format!("*=: {e}"))?;
            let d = b.d();
            if d.is_finite() && Dy::f(d).sub(&y).sign() == 0 {
                xf_agrees(&(*a * d), &x.mul(&y)).map_err(|e| format!("* f64: {e}"))?;
            }
            r
        }
        _ => {
            if y.sign() == 0 {
                return Ok(None);
            }
            let r = *a / *b;
            xf_quotient(&r, &x, &y)?;
            c /= *b;
            xf_quotient(&c, &x, &y).map_err(|e| format!("/=: {e}"))?;
            let d = b.d();
            if d.is_finite() && Dy::f(d).sub(&y).sign() == 0 {
                xf_quotient(&(*a / d), &x, &y).map_err(|e| format!("/ f64: {e}"))?;
            }
            r
        }
    };
    // what the assigning operator leaves behind takes part in further operations like the result
    for (n, p, q) in [("-", c - r, Dy::int(0)), ("+", c + r, xf(&c).add(&xf(&r)))] {
        let near = xf(&c).sub(&xf(&r));
        if n == "+" || near.sign() == 0 {
            xf_agrees(&p, &q).map_err(|e| format!("{} {n} {}: {e}", xt(&c), xt(&r)))?;
        }
    }
    Ok(Some(r))
}

fn xf_unary(a: &Xf) -> Result<(), String> {
    xf_agrees(a, &xf(a))?;
    xf_same("negation", &-(-*a), a)?;
    xf_agrees(&-*a, &xf(a).neg())?;
    if !a.is_neg() {
        let r = a.sqrt();
        let s = xf(&r);
        if r.is_neg() || !r.val().is_finite() || !s.mul(&s).near(&xf(a), 51) || r.is_zero() != a.is_zero() {
            return Err(format!("sqrt of {} is {}", xt(a), xt(&r)));
        }
        xf_agrees(&r, &s)?;
    }
    Ok(())
}

pub fn p14(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("exponents up to +-2^20, finite values, divisors other than zero, square roots of values that are not negative; relative error 2^-52 per operation");
    let eps = f64::EPSILON;
    let mants: Vec<f64> =
        vec![1.0, 1.5, 2.0 - eps, 1.0 + eps, 4.0 / 3.0, 1.0 + 5.0 * eps, std::f64::consts::SQRT_2, 1.75, 1.25 + eps, 1.0 + 0.25 * 0.25];
    let mut exps: Vec<i32> = vec![0, 1, 2, 3, 5, 20, 21, 51, 52, 53, 54, 55, 56, 57, 60, 100, 500, 1000, 1023, 1030, 2000, 5001, 100_000];
    exps.extend([4, 7, 10, 31, 32, 33, 48, 49, 50, 58, 59, 61, 62, 63, 64, 108, 1022, 1024, 1074, 1075, 4096]);
    if !q {
        let more: Vec<i32> = (0..=130).filter(|e| !exps.contains(e)).collect();
        exps.extend(more);
    }
    let mut vals: Vec<Xf> = Vec::new();
    for &e in &exps {
        for s in [e, -e] {
            if e == 0 && s != e {
                continue;
            }
            for &m in &mants {
                vals.push(Xf::new(m, s));
                vals.push(Xf::new(-m, s));
            }
            // zeros keep the exponent they were made with
            vals.push(Xf::new(0.0, s));
        }
    }
    let vals = &vals;
    ctx.explore("P14 construction: new(val, exp) for mantissas x exponents, from f64 over the range with subnormals, from ExtendedInt up to 64 words, and back", 1, |_, w| {
        let mut fs: Vec<f64> = vec![0.0, f64::MIN_POSITIVE, f64::MAX, f64::from_bits(1), f64::from_bits((1 << 52) - 1), 3.5, 1e300, 1e-300, 0.1];
        for k in -1074..=1023 {
            fs.push(2f64.powi(k / 2) * 2f64.powi(k - k / 2));
            fs.push(1.7 * 2f64.powi(k / 2) * 2f64.powi(k - k / 2));
        }
        for f in fs {
            for f in [f, -f] {
                let case = format!("from {f:e}");
                w.states += 1;
                w.traces += 1;
                let r = guard(|| {
                    let a = Xf::from(f);
                    xf_agrees(&a, &Dy::f(f))?;
                    if a.d() != f {
                        return Err(format!("from {f:e} and back gives {:e}", a.d()));
                    }
                    xf_unary(&a)?;
                    for e in [-3000, -60, -1, 0, 1, 60, 3000] {
                        xf_agrees(&Xf::new(f, e), &Dy::f(f).exp(e as i64))?;
                    }
                    Ok(())
                });
                if let Err(e) = r {
                    ctx.violation(&case, &e);
                }
            }
        }
        let mut x = ExtendedInt::from(-3);
        let mut v = Big::from(-3);
        while v.m.len() < 64 {
            w.states += 1;
            w.traces += 1;
            for k in [0, 1, -1] {
                let y = &x + &ExtendedInt::from(k);
                let u = v.add(&Big::from(k as i128));
                let case = format!("from the integer {}", u.hex());
                let r = guard(|| {
                    let (a, b) = (Xf::from(&y), Xf::from(y.clone()));
                    if !xf(&a).near(&Dy::big(&u), 51) || a.is_neg() != (u.sign() < 0) {
                        return Err(format!("gives {}", xt(&a)));
                    }
                    xf_same("from a value", &b, &a)
                });
                if let Err(e) = r {
                    ctx.violation(&case, &e);
                }
            }
            x = x * -2_000_000_011;
            v = v.mul(&Big::from(-2_000_000_011));
        }
        for a in vals {
            w.states += 1;
            if let Err(e) = guard(|| xf_unary(a)) {
                ctx.violation(&format!("unary {}", xt(a)), &e);
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    ctx.explore("P14 all a op b over mantissas x signs x exponents (and zeros of every exponent), op in + - * /, and the assigning and f64 spellings", vals.len(), |i, w| {
        let a = &vals[i];
        w.mark(|| format!("{} op ..", xt(a)));
        for b in vals {
            w.states += 1;
            for o in 0..4 {
                w.transitions += 1;
                w.traces += 1;
                if let Err(e) = guard(|| xf_op(o, a, b)) {
                    ctx.violation(&format!("{} {} {}", xt(a), XOPS[o], xt(b)), &e);
                }
            }
        }
        w.end();
    });
    if ctx.stopped() {
        return;
    }
    // histories of assigning operations on one value
    let seeds: Vec<Xf> = [(0.0, 0), (1.0, 0), (-1.5, 3), (4.0 / 3.0, -60), (2.0 - eps, 40), (-1.0 - eps, 90), (1.0, 1030), (-0.1, -1100)]
        .into_iter()
        .map(|(m, e)| Xf::new(m, e))
        .collect();
    let depth = if q { 4 } else { 5 };
    let n = seeds.len();
    let ops = 4 * n;
    ctx.explore(&format!("P14 all histories of up to {depth} assigning operations (+= -= *= /= with {n} operands) from {n} starting values, each step against the exact result"), n * ops, |c, w| {
        let a0 = seeds[c / ops];
        let mut st: Vec<(Xf, Vec<usize>)> = vec![(a0, vec![])];
        let mut first = true;
        while let Some((a, h)) = st.pop() {
            for k in 0..ops {
                if first && k != c % ops {
                    continue;
                }
                let b = seeds[k % n];
                let o = k / n;
                if o == 3 && b.is_zero() {
                    continue;
                }
                let mut h2 = h.clone();
                h2.push(k);
                w.transitions += 1;
                let r = guard(|| {
                    let (x, y) = (xf(&a), xf(&b));
                    let mut r = a;
                    match o {
                        0 => {
                            r += b;
                            xf_agrees(&r, &x.add(&y))?
                        }
                        1 => {
                            r -= b;
                            xf_agrees(&r, &x.sub(&y))?
                        }
                        2 => {
                            r *= b;
                            xf_agrees(&r, &x.mul(&y))?
                        }
                        _ => {
                            r /= b;
                            xf_quotient(&r, &x, &y)?
                        }
                    }
                    Ok(r)
                });
                match r {
                    Ok(r) => {
                        w.states += 1;
                        if h2.len() < depth {
                            st.push((r, h2));
                        } else {
                            w.traces += 1;
                        }
                    }
                    Err(e) => {
                        let t: Vec<String> = h2.iter().map(|k| format!("{}= {}", XOPS[k / n], xt(&seeds[k % n]))).collect();
                        ctx.violation(&format!("{} {}", xt(&a0), t.join(" ")), &e);
                    }
                }
            }
            first = false;
        }
    });
}

// ------------------------------------------------------------------------------------ P12
/// A RobustFpt, the exact value it stands for, and how it was made.
#[derive(Clone)]
struct Rob {
    x: RobustFpt,
    v: Rat,
    t: String,
}

const RE_MAX: f64 = 1048576.0;

/// |fpv - v| <= re * 2^-52 * |fpv|
fn encloses(x: &RobustFpt, v: &Rat) -> Result<(), String> {
    let (f, re) = (x.fpv(), x.re());
    if !f.is_finite() || re.is_nan() || re < 0.0 {
        return Err(format!("fpv {f:e}, re {re:e}"));
    }
    if x.ulp() != re || x.is_pos() != (f > 0.0) || x.is_neg() != (f < 0.0) || x.is_zero() != (f == 0.0) {
        return Err(format!("is_pos/is_neg/is_zero/ulp are {}/{}/{}/{} for fpv {f:e}, re {re:e}", x.is_pos(), x.is_neg(), x.is_zero(), x.ulp()));
    }
    if re >= RE_MAX {
        return Ok(());
    }
    let f = Dy::f(f);
    let err = f.mul(&v.d).sub(&v.n).abs();
    if !err.exp(52).le(&f.abs().mul(&v.d).mul(&Dy::f(re))) {
        return Err(format!("fpv {:e} with a relative error of at most {re} eps stands for ({})/({})", x.fpv(), v.n.text(), v.d.text()));
    }
    Ok(())
}

const ROPS: [&str; 4] = ["+", "-", "*", "/"];

/// The bound that one rounded operation needs; a result may not claim a larger one.
fn re_limit(o: usize, a: &RobustFpt, b: &RobustFpt, f: f64) -> f64 {
    let (x, y) = (a.fpv(), if o == 1 { -b.fpv() } else { b.fpv() });
    match o {
        0 | 1 if x == 0.0 || y == 0.0 || (x > 0.0) == (y > 0.0) => (1.0 + 1e-9) * (a.re().max(b.re()) + 1.0),
        0 | 1 if f == 0.0 => f64::INFINITY,
        0 | 1 => (1.0 + 1e-9) * ((x * a.re()).abs() + (y * b.re()).abs()) / f.abs() + 1.0,
        _ => (1.0 + 1e-9) * (a.re() + b.re() + 1.0),
    }
}

/// The same bound; it is itself a rounded sum.
fn near_re(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs()
}

fn rob_op(o: usize, a: &Rob, b: &Rob) -> Result<Option<Rob>, String> {
    let (x, y) = (a.x, b.x);
    if o == 3 && (y.is_zero() || b.v.sign() == 0) {
        return Ok(None);
    }
    // stay clear of overflow and underflow
    let f = match o {
        0 => x.fpv() + y.fpv(),
        1 => x.fpv() - y.fpv(),
        2 => x.fpv() * y.fpv(),
        _ => x.fpv() / y.fpv(),
    };
    if f.abs() > 1e290 || (f != 0.0 && f.abs() < 1e-290) {
        return Ok(None);
    }
    let mut c = x;
    let (r, v) = match o {
        0 => {
            c += y;
            (x + y, a.v.add(&b.v))
        }
        1 => {
            c -= y;
            (x - y, a.v.sub(&b.v))
        }
        2 => {
            c *= y;
            (x * y, a.v.mul(&b.v))
        }
        _ => {
            c /= y;
            (x / y, a.v.div(&b.v))
        }
    };
    if r.fpv() != f {
        return Err(format!("fpv is {:e}, the floating point result is {f:e}", r.fpv()));
    }
    if c.fpv() != r.fpv() || !near_re(c.re(), r.re()) {
        return Err(format!("the assigning operator gives {c:?}, the operator {r:?}"));
    }
    let lim = re_limit(o, &x, &y, f);
    if r.re() > lim {
        return Err(format!("re is {}, no more than {lim} is needed", r.re()));
    }
    encloses(&r, &v)?;
    encloses(&c, &v)?;
    if y.re() == 0.0 && o >= 2 {
        let d = if o == 2 { x * y.fpv() } else { x / y.fpv() };
        if d.fpv() != r.fpv() || d.re() > (1.0 + 1e-9) * r.re() {
            return Err(format!("the operator with an f64 gives {d:?}, with a RobustFpt {r:?}"));
        }
        encloses(&d, &v)?;
    }
    Ok(Some(Rob { x: r, v, t: String::new() }))
}

fn rob_unary(a: &Rob) -> Result<(), String> {
    encloses(&a.x, &a.v)?;
    encloses(&-a.x, &a.v.neg())?;
    if !near_re((-a.x).re(), a.x.re()) {
        return Err("negation changes the bound".into());
    }
    let mut z = RobustFpt::default();
    let _ = z.assign_from(&a.x);
    if (z.fpv(), z.re()) != (a.x.fpv(), a.x.re()) {
        return Err(format!("assign_from gives {z:?}"));
    }
    if !a.x.is_neg() && a.v.sign() >= 0 && a.x.re() < RE_MAX {
        let r = a.x.sqrt();
        if r.fpv() != a.x.fpv().sqrt() || r.re() > (1.0 + 1e-9) * (a.x.re() / 2.0 + 1.0) || !(r.re() >= 0.0) {
            return Err(format!("sqrt is {r:?}"));
        }
        // f (1 - re eps) <= sqrt v <= f (1 + re eps)
        let (f, e) = (Dy::f(r.fpv()), Dy::f(r.re()).exp(-52));
        let (lo, hi) = (f.mul(&Dy::int(1).sub(&e)), f.mul(&Dy::int(1).add(&e)));
        if !lo.mul(&lo).mul(&a.v.d).le(&a.v.n) || !a.v.n.le(&hi.mul(&hi).mul(&a.v.d)) {
            return Err(format!("sqrt is {r:?} for ({})/({})", a.v.n.text(), a.v.d.text()));
        }
    }
    Ok(())
}

/// Values with an error bound, standing for a value at each end of the bound and in the middle.
fn rob_leaves(vals: &[f64], res: &[f64]) -> Vec<Rob> {
    let mut out = Vec::new();
    for &f in vals {
        for &re in res {
            let x = if re == 0.0 { RobustFpt::from(f) } else { RobustFpt::new(f, re) };
            for k in [0, 1, -1] {
                if k != 0 && (re == 0.0 || f == 0.0) {
                    continue;
                }
                let d = Dy::f(f).mul(&Dy::f(re)).mul(&Dy::int(k)).exp(-52);
                out.push(Rob { x, v: Rat::of(Dy::f(f).add(&d)), t: format!("{f:e}[{}{re}]", ["", "+", "-"][k.rem_euclid(3) as usize]) });
            }
        }
    }
    out
}

/// All a op b and b op a for a in l, b in r; keeps the results if `keep`.
fn rob_level(ctx: &Ctx, name: &str, l: &[Rob], r: &[Rob], keep: bool) -> Vec<Rob> {
    let out = std::sync::Mutex::new(Vec::new());
    ctx.explore(name, l.len(), |i, w| {
        let a = &l[i];
        w.mark(|| format!("{} op ..", a.t));
        let mut kept = Vec::new();
        for b in r {
            for (p, s) in [(a, b), (b, a)] {
                for o in 0..4 {
                    w.transitions += 1;
                    match guard(|| {
                        let r = rob_op(o, p, s)?;
                        if let Some(r) = &r {
                            rob_unary(r)?;
                        }
                        Ok(r)
                    }) {
                        Ok(Some(mut r)) => {
                            w.states += 1;
                            w.traces += 1;
                            if keep && r.x.re() < RE_MAX {
                                r.t = format!("({} {} {})", p.t, ROPS[o], s.t);
                                kept.push(r);
                            }
                        }
                        Ok(None) => w.add("operations outside of the domain", 1),
                        Err(e) => ctx.violation(&format!("({} {} {})", p.t, ROPS[o], s.t), &e),
                    }
                }
            }
        }
        w.end();
        if keep {
            out.lock().unwrap().push((i, kept));
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|o| o.0);
    out.into_iter().flat_map(|o| o.1).collect()
}

/// A RobustDif and the exact value it stands for.
#[derive(Clone)]
struct Dif {
    x: RobustDif,
    v: Rat,
    t: String,
}

fn dif_agrees(x: &RobustDif, v: &Rat) -> Result<(), String> {
    for (n, p) in [("positive", x.positive()), ("negative", x.negative())] {
        if p.is_neg() || !p.fpv().is_finite() || !(p.re() >= 0.0) {
            return Err(format!("{n}() is {p:?}"));
        }
    }
    let d = x.dif();
    encloses(&d, v)?;
    let m = -*x;
    if m.positive().fpv() != x.negative().fpv() || m.negative().fpv() != x.positive().fpv() || m.dif().fpv() != -d.fpv() {
        return Err(format!("the negative of {x:?} is {m:?}"));
    }
    encloses(&m.dif(), &v.neg())
}

enum Arg {
    D(Dif),
    R(Rob),
    F(f64),
}

impl Arg {
    fn text(&self) -> String {
        match self {
            Arg::D(d) => d.t.clone(),
            Arg::R(r) => r.t.clone(),
            Arg::F(f) => format!("{f:e}f64"),
        }
    }
}

/// (operator, operand) -> result; None where the operator does not exist or is out of the domain.
fn dif_op(o: usize, a: &Dif, b: &Arg) -> Result<Option<Dif>, String> {
    let out = |x: RobustDif, v: Rat| Ok(Some(Dif { x, v, t: String::new() }));
    let same = |n: &str, p: &RobustDif, q: &RobustDif, v: &Rat| {
        if p.positive().fpv() != q.positive().fpv() || p.negative().fpv() != q.negative().fpv() {
            return Err(format!("the assigning {n} gives {q:?}, the operator {p:?}"));
        }
        dif_agrees(q, v).map_err(|e| format!("assigning {n}: {e}"))
    };
    let mut c = a.x;
    match (o, b) {
        (0, Arg::D(d)) => {
            c += d.x;
            let r = a.x + d.x;
            let v = a.v.add(&d.v);
            same("+", &r, &c, &v)?;
            out(r, v)
        }
        (0, Arg::R(d)) => {
            c += d.x;
            out(c, a.v.add(&d.v))
        }
        (1, Arg::D(d)) => {
            c -= d.x;
            let r = a.x - d.x;
            let v = a.v.sub(&d.v);
            same("-", &r, &c, &v)?;
            out(r, v)
        }
        (1, Arg::R(d)) => {
            c -= d.x;
            let r = a.x - d.x;
            let v = a.v.sub(&d.v);
            same("-", &r, &c, &v)?;
            out(r, v)
        }
        (2, Arg::D(d)) => {
            c *= d.x;
            let r = a.x * d.x;
            let v = a.v.mul(&d.v);
            same("*", &r, &c, &v)?;
            out(r, v)
        }
        (2, Arg::R(d)) => {
            c *= d.x;
            let r = a.x * d.x;
            let v = a.v.mul(&d.v);
            same("*", &r, &c, &v)?;
            out(r, v)
        }
        (2, Arg::F(d)) => {
            c *= *d;
            let r = a.x * *d;
            let v = a.v.mul(&Rat::of(Dy::f(*d)));
            dif_agrees(&c, &v).map_err(|e| format!("*=: {e}"))?;
            out(r, v)
        }
        (3, Arg::R(d)) => {
            if d.x.is_zero() || d.v.sign() == 0 {
                return Ok(None);
            }
            c /= d.x;
            out(c, a.v.div(&d.v))
        }
        _ => Ok(None),
    }
}

pub fn p12(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("results between 1e-290 and 1e290 in magnitude or zero (no overflow or underflow), bounds below 2^20, divisors other than zero, square roots of values that are not negative");
    let eps = f64::EPSILON;
    let vals = [0.0, 1.0, -1.0, 3.0, -7.0, 0.1, -1.0 / 3.0, 1.0 + eps, 1e9 + 1.0, -1e9, 123456789.125, -1e-5, 4503599627370497.0, 1e20];
    let leaves = rob_leaves(&vals, &[0.0, 1.0, 5.0, 1000.0]);
    ctx.explore("P12 leaves: values x error bounds x the ends of the bounds", 1, |_, w| {
        for l in &leaves {
            w.states += 1;
            w.traces += 1;
            if let Err(e) = guard(|| rob_unary(l)) {
                ctx.violation(&l.t, &e);
            }
        }
        if let Err(e) = guard(|| encloses(&RobustFpt::default(), &Rat::of(Dy::int(0)))) {
            ctx.violation("default", &e);
        }
    });
    if ctx.stopped() {
        return;
    }
    let _ = rob_level(ctx, "P12 all a op b over the leaves, op in + - * /, also negated, assigned, with f64 operands, and the square roots", &leaves, &leaves, false);
    if ctx.stopped() {
        return;
    }
    let small = rob_leaves(&vals[..if q { 8 } else { 11 }], &[0.0, 4.0]);
    let l1 = rob_level(ctx, "P12 all a op b over the smaller set of leaves", &small, &small, true);
    if ctx.stopped() {
        return;
    }
    let _ = rob_level(ctx, "P12 all (a op b) op c and c op (a op b)", &l1, &small, false);
    if ctx.stopped() {
        return;
    }
    let tiny = rob_leaves(if q { &[1.0, -3.0, 0.1, -1e9] } else { &[0.0, 1.0, -3.0, 0.1, -1e9, -1.0 / 3.0] }, &[0.0, 3.0]);
    let t1 = rob_level(ctx, "P12 all a op b over the smallest set of leaves", &tiny, &tiny, true);
    if ctx.stopped() {
        return;
    }
    let t2 = rob_level(ctx, "P12 all (a op b) op c over the smallest set of leaves", &t1, &tiny, true);
    for s in t2.iter().step_by(1 + t2.len() / 6) {
        ctx.sample(format!("{} = {:?}", s.t, s.x));
    }
    if ctx.stopped() {
        return;
    }
    let few: Vec<Rob> = tiny.iter().step_by(2).cloned().collect();
    let _ = rob_level(ctx, "P12 all ((a op b) op c) op d over the smallest set of leaves", &t2, if q { &few } else { &tiny }, false);
    let _ = rob_level(ctx, "P12 all (a op b) op (c op d) over the smallest set of leaves", if q { &t1[..t1.len() / 4] } else { &t1 }, &t1, false);
    if ctx.stopped() {
        return;
    }
    // histories of one RobustDif
    let args = |vals: &[f64], res: &[f64]| -> Vec<Arg> {
        let rs = rob_leaves(vals, res);
        let mut a: Vec<Arg> = vals.iter().map(|f| Arg::F(*f)).collect();
        for r in &rs {
            a.push(Arg::R(r.clone()));
            a.push(Arg::D(Dif { x: RobustDif::from(r.x), v: r.v.clone(), t: format!("dif {}", r.t) }));
        }
        for f in vals {
            a.push(Arg::D(Dif { x: RobustDif::from(*f), v: Rat::of(Dy::f(*f)), t: format!("dif {f:e}f64") }));
        }
        let pos: Vec<&Rob> = rs.iter().filter(|r| !r.x.is_neg()).collect();
        for p in &pos {
            for n in &pos {
                a.push(Arg::D(Dif { x: RobustDif::from((p.x, n.x)), v: p.v.sub(&n.v), t: format!("dif ({}, {})", p.t, n.t) }));
                if p.x.re() == 0.0 && n.x.re() == 0.0 {
                    a.push(Arg::D(Dif { x: RobustDif::new(p.x.fpv(), n.x.fpv()), v: p.v.sub(&n.v), t: format!("dif new({}, {})", p.t, n.t) }));
                }
            }
        }
        a
    };
    for (vals, depth) in if q {
        vec![(vec![0.0, 1.0, -3.0, 0.1, -1e9], 2), (vec![2.0, -0.7], 3)]
    } else {
        vec![(vec![0.0, 1.0, -3.0, 0.1, -1e9, 1e-5, -1.0 / 3.0], 2), (vec![0.0, 2.0, -0.7], 3), (vec![-0.3], 5)]
    } {
        let ar = match guard(|| Ok(args(&vals, &[0.0, 4.0]))) {
            Ok(a) => a,
            Err(e) => {
                ctx.violation("RobustDif operands", &e);
                return;
            }
        };
        let starts: Vec<&Dif> = ar.iter().filter_map(|a| if let Arg::D(d) = a { Some(d) } else { None }).collect();
        ctx.explore(&format!("P12 all histories of {depth} operations on a RobustDif (+ - * with a RobustDif, RobustFpt or f64, /= RobustFpt; {} operands over {vals:?}) from {} starting values", ar.len(), starts.len()), starts.len(), |c, w| {
            w.mark(|| format!("{} ..", starts[c].t));
            if let Err(e) = guard(|| dif_agrees(&starts[c].x, &starts[c].v)) {
                ctx.violation(&starts[c].t, &e);
                return;
            }
            let mut st = vec![(starts[c].clone(), depth)];
            while let Some((a, left)) = st.pop() {
                if left > 1 {
                    w.mark(|| format!("{} ..", a.t));
                }
                for b in &ar {
                    for o in 0..4 {
                        w.transitions += 1;
                        match guard(|| {
                            let r = dif_op(o, &a, b)?;
                            if let Some(r) = &r {
                                dif_agrees(&r.x, &r.v)?;
                            }
                            Ok(r)
                        }) {
                            Ok(Some(mut r)) => {
                                w.states += 1;
                                let big = r.x.positive().fpv().max(r.x.negative().fpv());
                                if left > 1 && r.x.positive().re() < RE_MAX && r.x.negative().re() < RE_MAX && big < 1e100 {
                                    r.t = format!("{} {} {}", a.t, ROPS[o], b.text());
                                    st.push((r, left - 1));
                                } else {
                                    w.traces += 1;
                                }
                            }
                            Ok(None) => (),
                            Err(e) => ctx.violation(&format!("{} {} {}", a.t, ROPS[o], b.text()), &e),
                        }
                    }
                }
            }
            w.end();
        });
        if ctx.stopped() {
            return;
        }
    }
}
