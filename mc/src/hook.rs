//! P21, P23: internals, through the hooks of /repo (--cfg boostvoronoi_mc).
use crate::acc::*;
use crate::big::*;
use crate::diag::guard;
use crate::fam::*;
use crate::input::*;
use crate::run::*;
use boostvoronoi_core::mc_hook;
use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
use boostvoronoi_ext::extended_int::ExtendedInt;
use std::collections::HashMap;

type Xf = ExtendedExponentFpt<f64>;

// ------------------------------------------------------------------------------------ P21
/// Fixed point with this many fractional bits. More than 8 times the size of any term of the sums,
/// so that a sum other than zero is seen not to be zero (its conjugates bound it from below).
const K: usize = 960;

fn isqrt(n: &Big) -> Big {
    let mut r = Big::default();
    let one = Big::from(1);
    for b in (0..(n.bits() + 1) / 2 + 1).rev() {
        let t = r.add(&one.shl(b));
        if t.mul(&t).cmp(n) != std::cmp::Ordering::Greater {
            r = t;
        }
    }
    r
}

/// sqrt(b) * 2^K, rounded down
fn root(b: i64) -> Big {
    isqrt(&Big::from(b as i128).shl(2 * K))
}

/// The value against the exact one (times 2^K, to some units): zero is exact, anything else has a
/// relative error of at most `eps` * 2^-52.
fn agrees(got: &Xf, want: &Big, eps: i64) -> Result<(), String> {
    let v = got.val();
    if !v.is_finite() {
        return Err(format!("not finite: {v}"));
    }
    let w = Dy { b: want.clone(), e: -(K as i64) };
    if want.bits() <= 80 {
        return if v == 0.0 { Ok(()) } else { Err(format!("{v}*2^{} instead of zero", got.exp())) };
    }
    let g = Dy::f(v).exp(got.exp() as i64);
    let d = g.sub(&w).abs();
    if d.exp(52).le(&w.abs().mul(&Dy::int(eps as i128))) {
        Ok(())
    } else {
        Err(format!("{v}*2^{} is off by more than {eps} * 2^-52: the exact value starts with {:e}", got.exp(), approx(&w)))
    }
}
fn approx(w: &Dy) -> f64 {
    let t = w.b.bits().saturating_sub(60);
    let mut v = 0.0;
    for (i, x) in w.b.m.iter().enumerate() {
        v += *x as f64 * 2f64.powi(32 * i as i32 - t as i32);
    }
    let e = w.e + t as i64;
    v * 2f64.powi(e.clamp(-1000, 1000) as i32) * if w.b.neg { -1.0 } else { 1.0 }
}

struct Terms {
    a: Vec<ExtendedInt>,
    b: Vec<ExtendedInt>,
    v: Vec<Big>,
    t: Vec<(i64, i64)>,
}
fn terms(al: &[i64], bl: &[i64], roots: &HashMap<i64, Big>) -> Terms {
    let mut r = Terms { a: vec![], b: vec![], v: vec![], t: vec![] };
    for &b in bl {
        for &a in al {
            r.a.push(ExtendedInt::from(a));
            r.b.push(ExtendedInt::from(b));
            r.v.push(roots[&b].mul(&Big::from(a as i128)));
            r.t.push((a, b));
        }
    }
    r
}

fn sums(ctx: &Ctx, n: usize, ts: &Terms, eps: i64) {
    let m = ts.t.len();
    ctx.explore(&format!("P21 all sums of {n} terms a*sqrt(b) out of {m} terms"), m, |c, w| {
        w.mark(|| format!("P21 sums of {n} terms that start with {:?}", ts.t[c]));
        let mut ix = vec![0usize; n];
        ix[0] = c;
        let mut a: Vec<ExtendedInt> = ix.iter().map(|i| ts.a[*i].clone()).collect();
        let mut b: Vec<ExtendedInt> = ix.iter().map(|i| ts.b[*i].clone()).collect();
        loop {
            if ctx.stopped() {
                return;
            }
            let want = ix[1..].iter().fold(ts.v[c].clone(), |s, i| s.add(&ts.v[*i]));
            w.states += 1;
            w.traces += 1;
            w.transitions += n as u64;
            if want.bits() <= 80 {
                w.add("sums that are exactly zero", 1);
            }
            if let Err(e) = guard(|| agrees(&mc_hook::eval(&a, &b), &want, eps)) {
                let t: Vec<String> = ix.iter().map(|i| format!("{}*sqrt({})", ts.t[*i].0, ts.t[*i].1)).collect();
                ctx.violation(&t.join(" + "), &e);
            }
            let mut k = n - 1;
            while k > 0 {
                ix[k] += 1;
                if ix[k] < m {
                    a[k] = ts.a[ix[k]].clone();
                    b[k] = ts.b[ix[k]].clone();
                    break;
                }
                ix[k] = 0;
                a[k] = ts.a[0].clone();
                b[k] = ts.b[0].clone();
                k -= 1;
            }
            if k == 0 {
                break;
            }
        }
    });
}

pub fn p21(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("coefficients and radicands of up to 62 bits; the fixed point reference has 960 fractional bits");
    const M: i64 = 2147483647;
    // numerators and denominators of continued fractions of sqrt(2) and sqrt(3): near cancellation
    let al: Vec<i64> = vec![0, 1, -1, 2, -2, 3, -5, 70, -99, 985, -1393, 1311738121, -1855077841, M, -M, (1 << 40) + 1, -(1 << 61) + 1, 1351, -780, 2642885282, -1525870529];
    let bl: Vec<i64> = vec![0, 1, 2, 3, 4, 8, 12, 18, 50, 1000000007, M * M + 4, 2 * M * M, 1 << 62, 4_000_000_000_000_000_001];
    let mut roots = HashMap::new();
    for &b in &bl {
        let _ = roots.insert(b, root(b));
    }
    let all = terms(&al, &bl, &roots);
    sums(ctx, 1, &all, 4);
    sums(ctx, 2, &all, 7);
    let t3 = if q { terms(&al[..13], &bl[..8], &roots) } else { terms(&al, &bl[..11], &roots) };
    sums(ctx, 3, &t3, 16);
    let t3 = terms(&[0, 1, -1, -M, M, -(1 << 61) + 1], &bl, &roots);
    sums(ctx, 3, &t3, 16);
    let t4 = if q { terms(&[0, 1, -1, 2, -3, 99, -70], &[0, 1, 2, 3, 8], &roots) } else { terms(&[0, 1, -1, 2, -3, 70, -99, M], &[0, 1, 2, 3, 8, 18, 50], &roots) };
    sums(ctx, 4, &t4, 25);
    let t4 = terms(&[1, -1, M, -M + 1], &[1, 3, M * M + 4, 1 << 62, 4_000_000_000_000_000_001], &roots);
    sums(ctx, 4, &t4, 25);

    // pss3 and pss4
    let bs: Vec<i64> = vec![0, 1, 2, 3, 8, 25, 1000000007, M];
    let aa: Vec<i64> = if q { vec![0, 1, -1, 3, -7, 99, -70, M, -M] } else { vec![0, 1, -1, 2, -3, -7, 12, 99, -70, -1393, 985, M, -M] };
    let pairs: Vec<(i64, i64)> = bs.iter().flat_map(|a| bs.iter().map(move |b| (*a, *b))).collect();
    let quads: Vec<[i64; 4]> = {
        let n = aa.len();
        (0..n.pow(4)).map(|i| [aa[i % n], aa[i / n % n], aa[i / n / n % n], aa[i / n / n / n]]).collect()
    };
    let ea: Vec<[ExtendedInt; 4]> = quads.iter().map(|q| q.map(ExtendedInt::from)).collect();
    let (quads, ea, pairs) = (&quads, &ea, &pairs);
    ctx.explore(&format!("P21 pss3: {} quadruples of coefficients x {} pairs of radicands", quads.len(), pairs.len()), pairs.len(), |c, w| {
        let (b0, b1) = pairs[c];
        w.mark(|| format!("P21 pss3 B={b0},{b1}"));
        let (r0, r1, r3) = (root(b0), root(b1), root(b0 * b1));
        let one = Big::from(1).shl(K);
        let b = [b0, b1, 1, b0 * b1].map(ExtendedInt::from);
        for (q, a) in quads.iter().zip(ea) {
            if ctx.stopped() {
                return;
            }
            let want = [&r0, &r1, &one, &r3].iter().zip(q).fold(Big::default(), |s, (r, a)| s.add(&r.mul(&Big::from(*a as i128))));
            w.states += 1;
            w.traces += 1;
            w.transitions += 1;
            if let Err(e) = guard(|| agrees(&mc_hook::pss3(a, &b), &want, 16)) {
                ctx.violation(&format!("pss3 A={q:?} B={b0},{b1}"), &e);
            }
        }
    });
    // the radicand of the inner root is not negative
    let mut rad: Vec<[i64; 4]> = Vec::new();
    let bs: &[i64] = if q { &[1, 2, 8, 1000000007] } else { &[0, 1, 2, 8, 25, 1000000007, M] };
    for &b0 in bs {
        for &b1 in bs {
            for b2 in [0, 1, -1, 2, -4, -5, 7, 25, -1000000007, M] {
                for &b3 in if q { &[1, 2, 5][..] } else { &[0, 1, 2, 5, 50, 1000000007][..] } {
                    if b2 >= 0 || (b2 as i128).pow(2) <= b0 as i128 * b1 as i128 {
                        rad.push([b0, b1, b2, b3]);
                    }
                }
            }
        }
    }
    let rad = &rad;
    ctx.explore(&format!("P21 pss4: {} quadruples of coefficients x {} of radicands", quads.len(), rad.len()), rad.len(), |c, w| {
        let [b0, b1, b2, b3] = rad[c];
        w.mark(|| format!("P21 pss4 B={:?}", rad[c]));
        let (r0, r1) = (root(b0), root(b1));
        let one = Big::from(1).shl(K);
        // (sqrt(b0 b1) + b2) b3, with three times as many bits
        let in3 = isqrt(&Big::from(b0 as i128 * b1 as i128).shl(6 * K)).add(&Big::from(b2 as i128).shl(3 * K)).mul(&Big::from(b3 as i128));
        // the exact zero of the inner sum
        let in3 = if in3.bits() <= 80 { Big::default() } else { in3 };
        let r2 = if in3.is_zero() { in3 } else { isqrt(&in3.shl(K)) };
        // sqrt(in3 * 2^K) has 2K fractional bits
        let r2 = shr(&r2, K);
        let b = [b0, b1, b2, b3].map(ExtendedInt::from);
        for (q, a) in quads.iter().zip(ea) {
            if ctx.stopped() {
                return;
            }
            let want = [&r0, &r1, &r2, &one].iter().zip(q).fold(Big::default(), |s, (r, a)| s.add(&r.mul(&Big::from(*a as i128))));
            w.states += 1;
            w.traces += 1;
            w.transitions += 1;
            if let Err(e) = guard(|| agrees(&mc_hook::pss4(a, &b), &want, 25)) {
                ctx.violation(&format!("pss4 A={q:?} B={:?}", rad[c]), &e);
            }
        }
    });
}

fn shr(b: &Big, n: usize) -> Big {
    let mut r = b.shl((32 - n % 32) % 32);
    let k = (n + 31) / 32;
    let k = k.min(r.m.len());
    r.m.drain(..k);
    if r.m.is_empty() {
        r.neg = false;
    }
    r
}

// ------------------------------------------------------------------------------------ P23
fn circle(r: &mc_hook::CircleRecord, limit: f64, w: &mut Worker) -> Result<(), String> {
    let o = [r.sites[0][0], r.sites[0][1]];
    let loc: Vec<[i64; 4]> = r.sites.iter().map(|s| [s[0] - o[0], s[1] - o[1], s[2] - o[0], s[3] - o[1]]).collect();
    let text = || format!("circle of {:?}: centre ({:e}, {:e}) right end {:e}", r.sites, r.x, r.y, r.lower_x);
    if !(r.x.is_finite() && r.y.is_finite() && r.lower_x.is_finite()) {
        return Err(format!("{}: not finite", text()));
    }
    if r.lower_x < r.x && (r.x - r.lower_x) > limit * f64::EPSILON * r.x.abs() {
        return Err(format!("{}: the right end is left of the centre", text()));
    }
    let size = loc.iter().flatten().fold(1.0f64, |m, c| m.max(c.abs() as f64));
    let q = [r.x - o[0] as f64, r.y - o[1] as f64];
    // the common end point of two of the segments
    let is_pt = |s: &[i64; 4]| s[0] == s[2] && s[1] == s[3];
    for s in loc.iter().filter(|s| is_pt(s)) {
        let own = loc.iter().filter(|g| !is_pt(g) && ([g[0], g[1]] == [s[0], s[1]] || [g[2], g[3]] == [s[0], s[1]])).count();
        if own == 2 {
            let p = [(s[0] + o[0]) as f64, (s[1] + o[1]) as f64];
            return if [r.x, r.y, r.lower_x] == [p[0], p[1], p[0]] { Ok(()) } else { Err(format!("{}: not at the common end point", text())) };
        }
    }
    let Some(eqs) = equations(&loc, q) else {
        w.add("circles_without_exact_counterpart", 1);
        return Ok(());
    };
    let Some((u, err)) = solve3(&eqs, q, (r.lower_x - r.x).max(0.0), size) else {
        w.add("circles_without_exact_counterpart", 1);
        return Ok(());
    };
    let ex = [u[0].add(D::i(o[0] as i128)), u[1].add(D::i(o[1] as i128)), u[0].add(u[2]).add(D::i(o[0] as i128))];
    for (n, g, e) in [("x", r.x, ex[0]), ("y", r.y, ex[1]), ("right end", r.lower_x, ex[2])] {
        let d = (D::f(g).sub(e).abs().0 - err).max(0.0);
        if d > 0.0 {
            let u = d / (e.0.abs() * f64::EPSILON);
            w.max("largest_deviation_in_2^-52", u.min(1e9).ceil() as u64);
            if u > limit {
                return Err(format!("{}: {n} is {u:.0} * 2^-52 away from the exact {:e}", text(), e.0));
            }
        }
    }
    Ok(())
}

pub fn p23(ctx: &Ctx) {
    ctx.assume("reference: Newton's method in double-double arithmetic from the circle itself; its error estimate is subtracted");
    for (fam, maps) in crate::diag::ulp_families(ctx.quick()) {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let mapped = inp.map(|p| m.p(p));
            mc_hook::record_circles();
            let r = build::<i32, f64>(&mapped).map(|_| ());
            let l = mc_hook::take_circles();
            w.add("circles", l.len() as u64);
            let r = r.and_then(|_| guard(|| l.iter().try_for_each(|c| circle(c, 128.0, w))));
            w.traces += 1;
            if let Err(e) = r {
                ctx.violation(&case_text(inp, m), &e);
            }
        });
    }
}
