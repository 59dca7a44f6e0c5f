//! P22: the vertices of a diagram are accurate to a few ulps in each coordinate. The exact vertex of
//! three sites is computed by Newton's method in double-double arithmetic, started from the vertex
//! in question; the estimated error of the exact vertex is part of the comparison.
use crate::input::*;
use crate::refseg::*;
use crate::segs::*;
use crate::snap::*;

/// Unevaluated sum of two f64.
#[derive(Clone, Copy, Debug)]
pub struct D(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> D {
    let s = a + b;
    let t = s - a;
    D(s, (a - (s - t)) + (b - t))
}
fn quick(a: f64, b: f64) -> D {
    let s = a + b;
    D(s, b - (s - a))
}
impl D {
    pub fn f(a: f64) -> D {
        D(a, 0.0)
    }
    /// exact for |v| < 2^106
    pub fn i(v: i128) -> D {
        let h = v as f64;
        two_sum(h, (v - h as i128) as f64)
    }
    pub fn add(self, o: D) -> D {
        let s = two_sum(self.0, o.0);
        let t = two_sum(self.1, o.1);
        let r = quick(s.0, s.1 + t.0);
        quick(r.0, r.1 + t.1)
    }
    fn neg(self) -> D {
        D(-self.0, -self.1)
    }
    pub fn sub(self, o: D) -> D {
        self.add(o.neg())
    }
    fn mul(self, o: D) -> D {
        let p = self.0 * o.0;
        let e = self.0.mul_add(o.0, -p);
        quick(p, e + (self.0 * o.1 + self.1 * o.0))
    }
    fn div(self, o: D) -> D {
        let q = self.0 / o.0;
        let r = self.sub(o.mul(D::f(q)));
        let q2 = r.0 / o.0;
        let r = r.sub(o.mul(D::f(q2)));
        let q3 = r.0 / o.0;
        quick(q, q2).add(D::f(q3))
    }
    fn sqrt(self) -> D {
        if self.0 <= 0.0 {
            return D(0.0, 0.0);
        }
        let x = D::f(self.0.sqrt());
        // two Newton steps
        let x = x.add(self.div(x)).mul(D::f(0.5));
        x.add(self.div(x)).mul(D::f(0.5))
    }
    pub fn abs(self) -> D {
        if self.0 < 0.0 {
            self.neg()
        } else {
            self
        }
    }
}

/// What is exact in the model: a point, or a line with its integer direction and the side.
#[derive(Clone, Copy)]
pub enum Eq {
    /// |q - p|^2 = r^2
    Dist([D; 2]),
    /// n.(q - a) = s r |n|; n integer
    Line([D; 2], [D; 2], D, f64),
    /// d.(q - p) = 0
    Perp([D; 2], [D; 2]),
}

fn pt(p: P) -> [D; 2] {
    [D::i(p[0] as i128), D::i(p[1] as i128)]
}

/// The equations of a triple of sites; None if they do not determine a vertex.
fn system(st: &Sites, t: [F; 3], q: V) -> Option<[Eq; 3]> {
    let mut eqs: Vec<Eq> = Vec::new();
    for f in t {
        match f {
            F::S(k) => {
                let g = &st.segs[k];
                let (a, b) = (st.pts[g.a], st.pts[g.b]);
                let d = [(b[0] - a[0]) as i128, (b[1] - a[1]) as i128];
                let n = [D::i(-d[1]), D::i(d[0])];
                let l = D::i(d[0] * d[0] + d[1] * d[1]).sqrt();
                let side = st.sd(k, q);
                if side == 0.0 {
                    return None;
                }
                eqs.push(Eq::Line(pt(a), n, l, side.signum()));
            }
            F::P(p) => {
                let own: Vec<usize> = t.iter().filter_map(|f| if let F::S(k) = f { Some(*k) } else { None }).filter(|k| st.segs[*k].a == p || st.segs[*k].b == p).collect();
                match own.len() {
                    0 => eqs.push(Eq::Dist(pt(st.pts[p]))),
                    1 => {
                        let g = &st.segs[own[0]];
                        let (a, b) = (st.pts[g.a], st.pts[g.b]);
                        eqs.push(Eq::Perp(pt(st.pts[p]), [D::i((b[0] - a[0]) as i128), D::i((b[1] - a[1]) as i128)]));
                    }
                    _ => return None,
                }
            }
        }
    }
    eqs.try_into().ok()
}

/// Newton from (q, r). Returns the vertex and an estimate of its error.
fn solve(eqs: &[Eq; 3], q: V, r: f64, size: f64) -> Option<([D; 2], f64)> {
    solve3(eqs, q, r, size).map(|(u, e)| ([u[0], u[1]], e))
}
pub fn solve3(eqs: &[Eq; 3], q: V, r: f64, size: f64) -> Option<([D; 3], f64)> {
    let mut u = [D::f(q[0]), D::f(q[1]), D::f(r)];
    let mut last = f64::INFINITY;
    for it in 0..12 {
        let mut m = [[D::f(0.0); 4]; 3];
        for (k, e) in eqs.iter().enumerate() {
            let two = D::f(2.0);
            m[k] = match e {
                Eq::Dist(p) => {
                    let (x, y) = (u[0].sub(p[0]), u[1].sub(p[1]));
                    let f = x.mul(x).add(y.mul(y)).sub(u[2].mul(u[2]));
                    [two.mul(x), two.mul(y), two.mul(u[2]).neg(), f]
                }
                Eq::Line(a, n, l, s) => {
                    let (x, y) = (u[0].sub(a[0]), u[1].sub(a[1]));
                    let f = n[0].mul(x).add(n[1].mul(y)).sub(D::f(*s).mul(u[2]).mul(*l));
                    [n[0], n[1], D::f(-*s).mul(*l), f]
                }
                Eq::Perp(p, d) => {
                    let (x, y) = (u[0].sub(p[0]), u[1].sub(p[1]));
                    [d[0], d[1], D::f(0.0), d[0].mul(x).add(d[1].mul(y))]
                }
            };
            // rows of comparable size
            let s = m[k][..3].iter().fold(0.0f64, |a, v| a.max(v.0.abs()));
            if !(s > 0.0) {
                return None;
            }
            let s = 2f64.powi(-(s.log2().floor() as i32));
            for v in m[k].iter_mut() {
                *v = D(v.0 * s, v.1 * s);
            }
        }
        // Gauss with row pivoting
        let mut piv_min = f64::INFINITY;
        for c in 0..3 {
            let p = (c..3).max_by(|a, b| m[*a][c].0.abs().partial_cmp(&m[*b][c].0.abs()).unwrap())?;
            m.swap(c, p);
            let piv = m[c][c];
            piv_min = piv_min.min(piv.0.abs());
            if piv.0.abs() < 1e-18 {
                return None;
            }
            for k in 0..3 {
                if k != c {
                    let f = m[k][c].div(piv);
                    for j in c..4 {
                        let t = f.mul(m[c][j]);
                        m[k][j] = m[k][j].sub(t);
                    }
                }
            }
        }
        let d: Vec<D> = (0..3).map(|k| m[k][3].div(m[k][k])).collect();
        for k in 0..3 {
            u[k] = u[k].sub(d[k]);
        }
        let step = d.iter().fold(0.0f64, |a, v| a.max(v.0.abs()));
        if !step.is_finite() {
            return None;
        }
        let big = size.max(u[0].0.abs()).max(u[1].0.abs()).max(u[2].0.abs());
        // rounding of the equations, through the smallest pivot
        let err = big * 2f64.powi(-98) / piv_min.min(1.0);
        if it > 2 && (step <= err * 16.0 || step >= last) {
            if step > big * 1e-20 {
                return None;
            }
            return Some((u, err.max(step) * 64.0));
        }
        last = step;
    }
    None
}

pub struct Found {
    /// largest deviation, in units of 2^-52 of the coordinate itself
    pub worst: f64,
    pub vertices: u64,
    pub unsure: u64,
}

/// The deviation of every vertex from the exact vertex of (the best) three of its sites, in ulps of
/// each coordinate.
pub fn accuracy(inp: &Input, s: &Snap, limit: f64) -> Result<Found, String> {
    let o = inp.pts.first().copied().or(inp.segs.first().map(|s| [s[0], s[1]])).unwrap_or([0, 0]);
    let loc = inp.map(|p| [p[0] - o[0], p[1] - o[1]]);
    let st = Sites::new(&loc);
    let fs = cells(&loc, &st, s)?;
    let mut res = Found { worst: 0.0, vertices: 0, unsure: 0 };
    let size = st.p.iter().flatten().fold(1.0f64, |m, c| m.max(c.abs()));
    for (i, v) in s.verts.iter().enumerate() {
        let q = [v.x - o[0] as f64, v.y - o[1] as f64];
        let e0 = v.inc.ok_or("vertex without edge")?;
        let mut l: Vec<F> = Vec::new();
        let mut e = e0;
        loop {
            let f = fs[s.edges[e].cell.ok_or("no cell")?];
            if !l.contains(&f) {
                l.push(f);
            }
            e = s.edges[s.edges[e].prev.ok_or("no prev")?].twin.ok_or("no twin")?;
            if e == e0 || l.len() > 64 {
                break;
            }
        }
        res.vertices += 1;
        // at a point where segments meet
        if let Some(p) = l.iter().find_map(|f| match f {
            F::P(p) if l.iter().filter(|g| matches!(g, F::S(k) if st.segs[*k].a == *p || st.segs[*k].b == *p)).count() >= 2 && (q[0] - st.p[*p][0]).abs() + (q[1] - st.p[*p][1]).abs() <= 1e-9 * size => Some(*p),
            _ => None,
        }) {
            let (x, y) = (st.pts[p][0] + o[0], st.pts[p][1] + o[1]);
            if (v.x, v.y) != (x as f64, y as f64) {
                return Err(format!("vertex {i} at ({}, {}) is not at the site ({x}, {y})", v.x, v.y));
            }
            continue;
        }
        let r = st.clearance(q);
        let mut best: Option<(f64, [D; 2])> = None;
        let n = l.len().min(9);
        'o: for a in 0..n {
            for b in a + 1..n {
                for c in b + 1..n {
                    let Some(eqs) = system(&st, [l[a], l[b], l[c]], q) else { continue };
                    let Some((w, err)) = solve(&eqs, q, r, size) else { continue };
                    let w = [w[0].add(D::i(o[0] as i128)), w[1].add(D::i(o[1] as i128))];
                    let dev = [v.x, v.y].iter().zip(&w).fold(0.0f64, |m, (g, w)| {
                        let d = (D::f(*g).sub(*w).abs().0 - err).max(0.0);
                        if d == 0.0 { m } else { m.max(d / (w.0.abs() * f64::EPSILON)) }
                    });
                    if best.map_or(true, |x| dev < x.0) {
                        best = Some((dev, w));
                    }
                    if dev <= limit {
                        break 'o;
                    }
                }
            }
        }
        match best {
            None => res.unsure += 1,
            Some((d, w)) => {
                res.worst = res.worst.max(d);
                if d > limit {
                    return Err(format!("vertex {i} at ({:e}, {:e}) is {d:.0} * 2^-52 away from the exact vertex ({:e}, {:e})", v.x, v.y, w[0].0, w[1].0));
                }
            }
        }
    }
    Ok(res)
}

/// The same for three sites given by their coordinates (points: both ends equal).
#[allow(dead_code)]
pub fn equations(sites: &[[i64; 4]], q: V) -> Option<[Eq; 3]> {
    let is_pt = |s: &[i64; 4]| s[0] == s[2] && s[1] == s[3];
    let mut eqs: Vec<Eq> = Vec::new();
    for s in sites {
        let (a, d) = ([s[0], s[1]], |s: &[i64; 4]| [(s[2] - s[0]) as i128, (s[3] - s[1]) as i128]);
        if !is_pt(s) {
            let d = d(s);
            let l = D::i(d[0] * d[0] + d[1] * d[1]).sqrt();
            let side = -(d[1] as f64) * (q[0] - a[0] as f64) + d[0] as f64 * (q[1] - a[1] as f64);
            if side == 0.0 {
                return None;
            }
            eqs.push(Eq::Line(pt(a), [D::i(-d[1]), D::i(d[0])], l, side.signum()));
        } else {
            match sites.iter().find(|g| !is_pt(g) && ([g[0], g[1]] == a || [g[2], g[3]] == a)) {
                None => eqs.push(Eq::Dist(pt(a))),
                Some(g) => eqs.push(Eq::Perp(pt(a), d(g).map(D::i))),
            }
        }
    }
    eqs.try_into().ok()
}
