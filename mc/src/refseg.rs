//! Reference model of the Voronoi diagram of points and segments: brute force over all pairs and
//! triples of sites, in f64, for small coordinates. Every yes/no decision keeps its margin, so that
//! a run can show that no decision was close (see `Gap`).
use crate::input::*;

pub type V = [f64; 2];

#[derive(Clone, Debug)]
pub struct Seg {
    pub a: usize,
    pub b: usize,
    /// unit direction a -> b, left normal, length
    pub d: V,
    pub n: V,
    pub len: f64,
    /// n . x + c = signed distance
    pub c: f64,
}

/// Sites: the distinct points (segment endpoints included) and the distinct segments.
#[derive(Clone, Debug, Default)]
pub struct Sites {
    pub pts: Vec<P>,
    pub p: Vec<V>,
    pub segs: Vec<Seg>,
}

/// Smallest rejected and largest accepted residual of the tolerance decisions.
#[derive(Clone, Copy, Debug)]
pub struct Gap {
    pub acc: f64,
    pub rej: f64,
}
impl Default for Gap {
    fn default() -> Self {
        Gap { acc: 0.0, rej: f64::INFINITY }
    }
}
pub const TOL: f64 = 1e-8;
impl Gap {
    /// is x (>= 0) zero?
    pub fn zero(&mut self, x: f64) -> bool {
        if x <= TOL {
            if x > self.acc {
                self.acc = x;
            }
            true
        } else {
            if x < self.rej {
                self.rej = x;
            }
            false
        }
    }
    pub fn merge(&mut self, o: &Gap) {
        self.acc = self.acc.max(o.acc);
        self.rej = self.rej.min(o.rej);
    }
    pub fn undecided(&self) -> bool {
        self.acc > 1e-9 || self.rej < 1e-7
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum F {
    P(usize),
    S(usize),
}

impl Sites {
    pub fn new(inp: &Input) -> Sites {
        let mut pts: Vec<P> = inp.pts.clone();
        for s in &inp.segs {
            pts.push([s[0], s[1]]);
            pts.push([s[2], s[3]]);
        }
        pts.sort();
        pts.dedup();
        let mut sg: Vec<(usize, usize)> = inp
            .segs
            .iter()
            .map(|s| {
                let a = pts.binary_search(&[s[0], s[1]]).unwrap();
                let b = pts.binary_search(&[s[2], s[3]]).unwrap();
                (a.min(b), a.max(b))
            })
            .filter(|s| s.0 != s.1)
            .collect();
        sg.sort();
        sg.dedup();
        let p: Vec<V> = pts.iter().map(|p| [p[0] as f64, p[1] as f64]).collect();
        let segs = sg
            .iter()
            .map(|&(a, b)| {
                let (pa, pb) = (p[a], p[b]);
                let len = (pb[0] - pa[0]).hypot(pb[1] - pa[1]);
                let d = [(pb[0] - pa[0]) / len, (pb[1] - pa[1]) / len];
                let n = [-d[1], d[0]];
                Seg { a, b, d, n, len, c: -(n[0] * pa[0] + n[1] * pa[1]) }
            })
            .collect();
        Sites { pts, p, segs }
    }

    pub fn n(&self) -> usize {
        self.p.len() + self.segs.len()
    }

    pub fn sd(&self, s: usize, q: V) -> f64 {
        let a = self.p[self.segs[s].a];
        let n = self.segs[s].n;
        n[0] * (q[0] - a[0]) + n[1] * (q[1] - a[1])
    }
    /// position of the foot along the segment, 0..len
    pub fn along(&self, s: usize, q: V) -> f64 {
        let a = self.p[self.segs[s].a];
        let d = self.segs[s].d;
        d[0] * (q[0] - a[0]) + d[1] * (q[1] - a[1])
    }
    pub fn dist(&self, f: F, q: V) -> f64 {
        match f {
            F::P(i) => (q[0] - self.p[i][0]).hypot(q[1] - self.p[i][1]),
            F::S(s) => {
                let t = self.along(s, q);
                if t < 0.0 {
                    self.dist(F::P(self.segs[s].a), q)
                } else if t > self.segs[s].len {
                    self.dist(F::P(self.segs[s].b), q)
                } else {
                    self.sd(s, q).abs()
                }
            }
        }
    }
    /// distance from q to everything
    pub fn clearance(&self, q: V) -> f64 {
        let mut r = f64::INFINITY;
        for i in 0..self.p.len() {
            r = r.min(self.dist(F::P(i), q));
        }
        for i in 0..self.segs.len() {
            r = r.min(self.dist(F::S(i), q));
        }
        r
    }
    /// Is the feature (point, or segment seen through a foot on the closed segment) at distance r
    /// from q, where r is the clearance?
    pub fn active(&self, f: F, q: V, r: f64, g: &mut Gap) -> bool {
        match f {
            F::P(_) => g.zero((self.dist(f, q) - r).abs()),
            F::S(s) => {
                if !g.zero((self.sd(s, q).abs() - r).abs()) {
                    return false;
                }
                let t = self.along(s, q);
                let out = (-t).max(t - self.segs[s].len).max(0.0);
                g.zero(out)
            }
        }
    }
    pub fn features(&self) -> impl Iterator<Item = F> + '_ {
        (0..self.p.len()).map(F::P).chain((0..self.segs.len()).map(F::S))
    }
    pub fn active_set(&self, q: V, r: f64, g: &mut Gap) -> Vec<F> {
        let mut v = Vec::new();
        for f in self.features() {
            if self.active(f, q, r, g) {
                v.push(f);
            }
        }
        v
    }
    fn foot(&self, f: F, q: V) -> V {
        match f {
            F::P(i) => self.p[i],
            F::S(s) => {
                let t = self.along(s, q);
                let sg = &self.segs[s];
                [self.p[sg.a][0] + t * sg.d[0], self.p[sg.a][1] + t * sg.d[1]]
            }
        }
    }
    /// Does q with clearance r > 0 and these active features carry a Voronoi vertex?
    fn is_vertex(&self, q: V, act: &[F], g: &mut Gap) -> bool {
        if act.len() < 3 {
            return false;
        }
        // number of distinct contact points >= 2 (with 3 features: 3 contacts, or a contact shared
        // by a segment and its endpoint)
        let f0 = self.foot(act[0], q);
        act.iter().any(|&f| {
            let x = self.foot(f, q);
            !g.zero((x[0] - f0[0]).hypot(x[1] - f0[1]))
        })
    }
}

#[derive(Clone, Debug)]
pub struct RVert {
    pub q: V,
    pub r: f64,
    pub act: Vec<F>,
}

fn quad(a: f64, b: f64, c: f64, out: &mut Vec<f64>) {
    // a x^2 + b x + c = 0
    let s = a.abs().max(b.abs()).max(c.abs());
    if s == 0.0 {
        return;
    }
    if a.abs() < 1e-12 * s {
        if b.abs() > 1e-12 * s {
            out.push(-c / b);
        }
        return;
    }
    let mut disc = b * b - 4.0 * a * c;
    if disc.abs() < 1e-10 * s * s {
        disc = 0.0;
    }
    if disc < 0.0 {
        return;
    }
    let q = -0.5 * (b + b.signum() * disc.sqrt());
    out.push(q / a);
    if q != 0.0 {
        out.push(c / q);
    } else {
        out.push(0.0);
    }
}

fn add(a: V, t: f64, d: V) -> V {
    [a[0] + t * d[0], a[1] + t * d[1]]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
fn cross(a: V, b: V) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}

/// All Voronoi vertices with positive clearance, and those at segment endpoints.
pub fn vertices(st: &Sites, g: &mut Gap) -> Vec<RVert> {
    let mut out: Vec<RVert> = Vec::new();
    let np = st.p.len();
    let ns = st.segs.len();
    let mut cands: Vec<V> = Vec::new();
    let mut roots: Vec<f64> = Vec::new();
    // 1, 2: tangent to a segment at its endpoint
    for (s, sg) in st.segs.iter().enumerate() {
        for e in [sg.a, sg.b] {
            let pe = st.p[e];
            for q in 0..np {
                if q != e {
                    let w = sub(st.p[q], pe);
                    let k = dot(sg.n, w);
                    if k.abs() > 1e-12 {
                        cands.push(add(pe, dot(w, w) / (2.0 * k), sg.n));
                    }
                }
            }
            for t in 0..ns {
                if t != s {
                    let c0 = st.sd(t, pe);
                    let k = dot(st.segs[t].n, sg.n);
                    for sgn in [1.0, -1.0] {
                        let den = k - sgn;
                        if den.abs() > 1e-12 {
                            cands.push(add(pe, -c0 / den, sg.n));
                        }
                    }
                }
            }
        }
    }
    for a in 0..np {
        for b in a + 1..np {
            let (pa, pb) = (st.p[a], st.p[b]);
            let m = [(pa[0] + pb[0]) / 2.0, (pa[1] + pb[1]) / 2.0];
            let w = sub(pb, pa);
            let d = [-w[1], w[0]];
            // 3: three points
            for c in b + 1..np {
                let u = sub(st.p[c], pa);
                let l = dot(d, u);
                if l.abs() > 1e-12 {
                    let k = dot(u, u) - dot(w, u);
                    cands.push(add(m, k / (2.0 * l), d));
                }
            }
            // 4: two points, one segment
            for s in 0..ns {
                let (da, db) = (st.sd(s, pa), st.sd(s, pb));
                if da.abs() < 1e-12 || db.abs() < 1e-12 || da * db < 0.0 {
                    continue;
                }
                let c0 = st.sd(s, m);
                let k = dot(st.segs[s].n, d);
                // (c0 + k t)^2 = |m-a|^2 + t^2 |d|^2
                roots.clear();
                let dd = dot(d, d);
                quad(k * k - dd, 2.0 * c0 * k, c0 * c0 - dot(w, w) / 4.0, &mut roots);
                for &t in &roots {
                    cands.push(add(m, t, d));
                }
            }
        }
        // 5: one point, two segments
        let pa = st.p[a];
        for s in 0..ns {
            let ds = st.sd(s, pa);
            if ds.abs() < 1e-12 {
                continue;
            }
            for t in s + 1..ns {
                let dt = st.sd(t, pa);
                if dt.abs() < 1e-12 {
                    continue;
                }
                // the circle lies on a's side of both lines: sd_s(q) = sg_s r, sd_t(q) = sg_t r
                let (gs, gt) = (ds.signum(), dt.signum());
                let n1 = [st.segs[s].n[0] * gs, st.segs[s].n[1] * gs];
                let n2 = [st.segs[t].n[0] * gt, st.segs[t].n[1] * gt];
                let (c1, c2) = (ds.abs(), dt.abs());
                // relative to a: n1.x + c1 = r, n2.x + c2 = r, |x| = r
                roots.clear();
                let det = cross(n1, n2);
                if det.abs() > 1e-12 {
                    // x = x0 + r x1
                    let x0 = [(-c1 * n2[1] + c2 * n1[1]) / det, (-n1[0] * c2 + n2[0] * c1) / det];
                    let x1 = [(n2[1] - n1[1]) / det, (n1[0] - n2[0]) / det];
                    quad(dot(x1, x1) - 1.0, 2.0 * dot(x0, x1), dot(x0, x0), &mut roots);
                    for &r in &roots {
                        cands.push([pa[0] + x0[0] + r * x1[0], pa[1] + x0[1] + r * x1[1]]);
                    }
                } else if dot(n1, n2) < 0.0 {
                    // opposite: a lies between the lines; r = (c1+c2)/2, n1.x = r - c1
                    let r = (c1 + c2) / 2.0;
                    let h = r - c1;
                    let tt = r * r - h * h;
                    let tt = if tt.abs() < 1e-10 { 0.0 } else { tt };
                    if tt >= 0.0 {
                        let l = [-n1[1], n1[0]];
                        for sg in [1.0, -1.0] {
                            cands.push(add(add(pa, h, n1), sg * tt.sqrt(), l));
                        }
                    }
                }
            }
        }
    }
    // 6: three segments
    for s in 0..ns {
        for t in s + 1..ns {
            for u in t + 1..ns {
                let o = st.p[st.segs[s].a];
                let c = [0.0, st.sd(t, o), st.sd(u, o)];
                let n = [st.segs[s].n, st.segs[t].n, st.segs[u].n];
                for m in 0..4 {
                    // sd_i = sg_i * r, r of any sign
                    let sg = [1.0, if m & 1 == 0 { 1.0 } else { -1.0 }, if m & 2 == 0 { 1.0 } else { -1.0 }];
                    // n_i . x - sg_i r = -c_i
                    let det = n[0][0] * (n[1][1] * -sg[2] + sg[1] * n[2][1])
                        - n[0][1] * (n[1][0] * -sg[2] + sg[1] * n[2][0])
                        - sg[0] * (n[1][0] * n[2][1] - n[1][1] * n[2][0]);
                    if det.abs() < 1e-10 {
                        continue;
                    }
                    let b = [-c[0], -c[1], -c[2]];
                    let dx = b[0] * (n[1][1] * -sg[2] + sg[1] * n[2][1])
                        - n[0][1] * (b[1] * -sg[2] + sg[1] * b[2])
                        - sg[0] * (b[1] * n[2][1] - n[1][1] * b[2]);
                    let dy = n[0][0] * (b[1] * -sg[2] + sg[1] * b[2])
                        - b[0] * (n[1][0] * -sg[2] + sg[1] * n[2][0])
                        - sg[0] * (n[1][0] * b[2] - b[1] * n[2][0]);
                    cands.push([o[0] + dx / det, o[1] + dy / det]);
                }
            }
        }
    }
    for q in cands {
        if !q[0].is_finite() || !q[1].is_finite() {
            continue;
        }
        let r = st.clearance(q);
        if r < 1e-7 {
            continue;
        }
        if out.iter().any(|v| (v.q[0] - q[0]).abs() < 1e-8 && (v.q[1] - q[1]).abs() < 1e-8) {
            continue;
        }
        let mut gg = Gap::default();
        let act = st.active_set(q, r, &mut gg);
        if st.is_vertex(q, &act, &mut gg) {
            out.push(RVert { q, r, act });
            g.merge(&gg);
        } else {
            g.rej = g.rej.min(gg.rej);
        }
    }
    // positions have to be well apart
    for i in 0..out.len() {
        for j in i + 1..out.len() {
            let d = sub(out[i].q, out[j].q);
            g.rej = g.rej.min(d[0].hypot(d[1]));
        }
    }
    // endpoints where segments meet at an angle
    for e in 0..np {
        let dirs: Vec<(usize, V)> = st
            .segs
            .iter()
            .enumerate()
            .filter_map(|(i, s)| {
                if s.a == e {
                    Some((i, s.d))
                } else if s.b == e {
                    Some((i, [-s.d[0], -s.d[1]]))
                } else {
                    None
                }
            })
            .collect();
        if dirs.len() >= 2 && dirs.iter().any(|d| cross(d.1, dirs[0].1).abs() > 1e-9) {
            let mut act: Vec<F> = vec![F::P(e)];
            act.extend(dirs.iter().map(|d| F::S(d.0)));
            out.push(RVert { q: st.p[e], r: 0.0, act });
        }
    }
    out
}

/// A point of the bisector of (a, b) between q0 and q1, for features active at both.
pub fn between(st: &Sites, a: F, b: F, q0: V, q1: V) -> V {
    match (a, b) {
        (F::P(p), F::S(s)) | (F::S(s), F::P(p)) if st.segs[s].a != p && st.segs[s].b != p => {
            // parabola: y = (u^2 + h^2) / 2h with u = along - along(p), h = sd(p)
            let h = st.sd(s, st.p[p]);
            let t = (st.along(s, q0) + st.along(s, q1)) / 2.0;
            let u = t - st.along(s, st.p[p]);
            let y = (u * u + h * h) / (2.0 * h);
            let o = st.p[st.segs[s].a];
            add(add(o, t, st.segs[s].d), y, st.segs[s].n)
        }
        _ => [(q0[0] + q1[0]) / 2.0, (q0[1] + q1[1]) / 2.0],
    }
}

/// Direction of the infinite edge that has `a` on its left and `b` on its right.
pub fn ray_dir(st: &Sites, a: F, b: F) -> Option<V> {
    match (a, b) {
        (F::P(i), F::P(j)) => {
            let w = sub(st.p[j], st.p[i]);
            let l = dot(w, w).sqrt();
            Some([-w[1] / l, w[0] / l])
        }
        (F::S(s), F::P(p)) | (F::P(p), F::S(s)) => {
            let sg = &st.segs[s];
            // from the segment to the point, along the segment
            let to = if sg.b == p {
                sg.d
            } else if sg.a == p {
                [-sg.d[0], -sg.d[1]]
            } else {
                return None;
            };
            // walking with the segment on the left: direction is rot90ccw(to)
            let n = [-to[1], to[0]];
            if matches!(a, F::S(_)) {
                Some(n)
            } else {
                Some([-n[0], -n[1]])
            }
        }
        _ => None,
    }
}
