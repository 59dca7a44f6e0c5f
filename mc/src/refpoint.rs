//! Exact reference model of the Voronoi diagram of a set of points (integers, i128 rationals).
//! Brute force: for each pair of sites the exact interval of its bisector that is at least as
//! close to the pair as to every other site.
use crate::input::P;

/// Rational with positive denominator.
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d < 0 {
            Q { n: -n, d: -d }
        } else {
            Q { n, d }
        }
    }
    pub fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (self.n.checked_mul(o.d).unwrap()).cmp(&o.n.checked_mul(self.d).unwrap())
    }
    pub fn f(&self) -> f64 {
        self.n as f64 / self.d as f64
    }
}

/// The end of a Voronoi edge.
#[derive(Clone, Copy, Debug)]
pub struct End {
    pub x: f64,
    pub y: f64,
}

/// A Voronoi edge between sites a < b (indices into the point list): the bisector is run through
/// in the direction that has site `a` on its left; `from`/`to` are None at infinity.
#[derive(Clone, Copy, Debug)]
pub struct REdge {
    pub a: usize,
    pub b: usize,
    pub from: Option<End>,
    pub to: Option<End>,
}

fn end(a: P, b: P, t: Q) -> End {
    // p = (a+b)/2 + t*n, n = rot(b-a) ; exact numerators over 2*t.d
    let dx = (b[0] - a[0]) as i128;
    let dy = (b[1] - a[1]) as i128;
    let (nx, ny) = (-dy, dx);
    let den = 2 * t.d;
    let x = (a[0] as i128 + b[0] as i128) * t.d + 2 * t.n * nx;
    let y = (a[1] as i128 + b[1] as i128) * t.d + 2 * t.n * ny;
    End { x: Q::new(x, den).f(), y: Q::new(y, den).f() }
}

pub fn voronoi_edges(pts: &[P]) -> Vec<REdge> {
    let n = pts.len();
    let mut out = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = (pts[i], pts[j]);
            let dx = (b[0] - a[0]) as i128;
            let dy = (b[1] - a[1]) as i128;
            // walking along +n = rot90ccw(b-a): a is on the left
            let (nx, ny) = (-dy, dx);
            let mut lo: Option<Q> = None;
            let mut hi: Option<Q> = None;
            let mut empty = false;
            for (k, c) in pts.iter().enumerate() {
                if k == i || k == j {
                    continue;
                }
                let cx = (c[0] - a[0]) as i128;
                let cy = (c[1] - a[1]) as i128;
                // |c|^2 - (b-a).(c-a) - 2 t n.(c-a) >= 0 in coordinates relative to a
                let kk = cx * cx + cy * cy - (dx * cx + dy * cy);
                let l = 2 * (nx * cx + ny * cy);
                if l == 0 {
                    if kk < 0 {
                        empty = true;
                        break;
                    }
                } else {
                    let q = Q::new(kk, l);
                    if l > 0 {
                        if hi.map_or(true, |h| q.cmp(&h).is_lt()) {
                            hi = Some(q);
                        }
                    } else if lo.map_or(true, |h| q.cmp(&h).is_gt()) {
                        lo = Some(q);
                    }
                }
                if let (Some(l), Some(h)) = (lo, hi) {
                    if !l.cmp(&h).is_lt() {
                        empty = true;
                        break;
                    }
                }
            }
            if !empty {
                out.push(REdge {
                    a: i,
                    b: j,
                    from: lo.map(|t| end(a, b, t)),
                    to: hi.map(|t| end(a, b, t)),
                });
            }
        }
    }
    out
}
