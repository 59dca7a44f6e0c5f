//! Comparison of a built diagram with the reference model of points and segments.
use crate::input::*;
use crate::refseg::*;
use crate::snap::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// The feature of every cell; every site has exactly one cell.
pub fn cells(inp: &Input, st: &Sites, s: &Snap) -> Result<Vec<F>, String> {
    let mut fs = Vec::new();
    let mut used = BTreeSet::new();
    for (i, c) in s.cells.iter().enumerate() {
        let pt = |p: P| st.pts.binary_search(&p).map(F::P).map_err(|_| format!("cell {i}: no such point"));
        let f = if c.src < inp.pts.len() {
            ck!(c.cat == Cat::Single, "cell {i} of input point {} has category {:?}", c.src, c.cat);
            pt(inp.pts[c.src])?
        } else {
            let sg = inp
                .segs
                .get(c.src - inp.pts.len())
                .ok_or_else(|| format!("cell {i}: source index {} out of range", c.src))?;
            let (a, b) = ([sg[0], sg[1]], [sg[2], sg[3]]);
            match c.cat {
                Cat::Single => {
                    ck!(a == b, "cell {i}: single point category for a segment");
                    pt(a)?
                }
                _ if a == b => return Err(format!("cell {i}: category {:?} for a segment that is a point", c.cat)),
                Cat::Start => pt(a)?,
                Cat::End => pt(b)?,
                Cat::Seg => {
                    let ka = st.pts.binary_search(&a).unwrap();
                    let kb = st.pts.binary_search(&b).unwrap();
                    let k = st.segs.iter().position(|g| (g.a, g.b) == (ka.min(kb), ka.max(kb)));
                    F::S(k.ok_or_else(|| format!("cell {i}: no such segment"))?)
                }
            }
        };
        ck!(
            c.has_point == matches!(f, F::P(_)) && c.has_segment == matches!(f, F::S(_)),
            "cell {i}: contains_point/contains_segment wrong for {f:?}"
        );
        ck!(
            c.is_start == (c.cat == Cat::Start) && c.is_end == (c.cat == Cat::End),
            "cell {i}: startpoint/endpoint flags contradict the category"
        );
        ck!(used.insert(f), "two cells for the site {f:?}");
        fs.push(f);
    }
    ck!(fs.len() == st.n(), "{} cells for {} sites", fs.len(), st.n());
    Ok(fs)
}

pub fn is_endpoint(st: &Sites, a: F, b: F) -> bool {
    match (a, b) {
        (F::P(p), F::S(s)) | (F::S(s), F::P(p)) => st.segs[s].a == p || st.segs[s].b == p,
        _ => false,
    }
}

pub fn describe(st: &Sites, f: F) -> String {
    match f {
        F::P(p) => format!("point {:?}", st.pts[p]),
        F::S(s) => format!("segment {:?}-{:?}", st.pts[st.segs[s].a], st.pts[st.segs[s].b]),
    }
}

/// Flags of the edges, from the two sites alone.
pub fn flags(st: &Sites, fs: &[F], s: &Snap) -> Result<(), String> {
    for (i, e) in s.edges.iter().enumerate() {
        let a = fs[e.cell.unwrap()];
        let b = fs[s.edges[e.twin.unwrap()].cell.unwrap()];
        let own = is_endpoint(st, a, b);
        let mixed = matches!((a, b), (F::P(_), F::S(_)) | (F::S(_), F::P(_)));
        ck!(
            e.linear == (!mixed || own) && e.curved == (mixed && !own),
            "edge {i} between {} and {}: linear {} curved {}",
            describe(st, a),
            describe(st, b),
            e.linear,
            e.curved
        );
        ck!(
            e.primary != own && e.secondary == own,
            "edge {i} between {} and {}: primary {}",
            describe(st, a),
            describe(st, b),
            e.primary
        );
    }
    Ok(())
}

/// Is the point the common endpoint of segments that leave no gap of 180 degrees or more?
pub fn enclosed(st: &Sites, f: F) -> bool {
    let F::P(e) = f else { return false };
    let mut dirs: Vec<f64> = st
        .segs
        .iter()
        .filter_map(|s| {
            if s.a == e {
                Some(s.d[1].atan2(s.d[0]))
            } else if s.b == e {
                Some((-s.d[1]).atan2(-s.d[0]))
            } else {
                None
            }
        })
        .collect();
    if dirs.len() < 3 {
        return false;
    }
    dirs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let tau = 2.0 * std::f64::consts::PI;
    (0..dirs.len()).all(|i| {
        let gap = if i + 1 < dirs.len() { dirs[i + 1] - dirs[i] } else { dirs[0] + tau - dirs[i] };
        gap < std::f64::consts::PI - 1e-9
    })
}

pub struct Res {
    pub gap: Gap,
    pub dev: f64,
}

/// Full comparison. tol: deviation allowed for vertex positions.
pub fn compare(inp: &Input, s: &Snap, tol: f64, site_flags: bool) -> Result<Res, String> {
    let st = Sites::new(inp);
    let fs = cells(inp, &st, s)?;
    flags(&st, &fs, s)?;
    let mut g = Gap::default();
    let rv = vertices(&st, &mut g);
    let mut dev: f64 = 0.0;
    // vertices
    let mut vmap = vec![usize::MAX; s.verts.len()];
    let mut hit = vec![usize::MAX; rv.len()];
    for (i, v) in s.verts.iter().enumerate() {
        let mut best = (f64::INFINITY, 0);
        for (k, r) in rv.iter().enumerate() {
            let d = (r.q[0] - v.x).abs().max((r.q[1] - v.y).abs());
            if d < best.0 {
                best = (d, k);
            }
        }
        ck!(best.0 <= tol, "vertex {i} at ({}, {}) is no Voronoi vertex (nearest one at distance {})", v.x, v.y, best.0);
        dev = dev.max(best.0);
        ck!(hit[best.1] == usize::MAX, "vertices {} and {i} both at {:?}", hit[best.1], rv[best.1].q);
        hit[best.1] = i;
        vmap[i] = best.1;
        if site_flags {
            ck!(v.site == (rv[best.1].r == 0.0), "vertex {i} at ({}, {}): is_site_point {}", v.x, v.y, v.site);
        }
    }
    for (k, r) in rv.iter().enumerate() {
        ck!(
            hit[k] != usize::MAX,
            "missing Voronoi vertex at {:?} of {:?}",
            r.q,
            r.act.iter().map(|f| describe(&st, *f)).collect::<Vec<_>>()
        );
    }
    // cells without extent: exactly the endpoints enclosed by their segments
    for (i, c) in s.cells.iter().enumerate() {
        let e = enclosed(&st, fs[i]);
        ck!(
            c.inc.is_none() == (e || st.n() == 1),
            "cell {i} of {}: degenerate {}, enclosed by segments {e}",
            describe(&st, fs[i]),
            c.inc.is_none()
        );
    }
    // edges
    let size = st
        .p
        .iter()
        .fold(1.0f64, |m, p| m.max((p[0] - st.p[0][0]).abs()).max((p[1] - st.p[0][1]).abs()));
    let mut uniq = HashMap::new();
    for (i, e) in s.edges.iter().enumerate() {
        let a = fs[e.cell.unwrap()];
        let b = fs[s.edges[e.twin.unwrap()].cell.unwrap()];
        let name = || format!("edge {i} between {} (left) and {} (right)", describe(&st, a), describe(&st, b));
        let (v0, v1) = (e.v0.map(|v| vmap[v]), s.v1(i).map(|v| vmap[v]));
        if let Some(j) = uniq.insert((a, b, v0, v1), i) {
            return Err(format!("{} appears twice ({j} and {i})", name()));
        }
        for v in [v0, v1].into_iter().flatten() {
            ck!(
                rv[v].act.contains(&a) && rv[v].act.contains(&b),
                "{}: has an end at {:?} which is not on their bisector",
                name(),
                rv[v].q
            );
        }
        ck!(v0.is_none() || v0 != v1, "{}: starts and ends at the same vertex", name());
        // interior points of the edge, and its direction there
        let mut pts: Vec<(V, V)> = Vec::new();
        match (v0, v1) {
            (Some(x), Some(y)) => {
                let (p, q) = (rv[x].q, rv[y].q);
                let m = between(&st, a, b, p, q);
                pts.push((m, [q[0] - p[0], q[1] - p[1]]));
                pts.push((between(&st, a, b, p, m), [m[0] - p[0], m[1] - p[1]]));
                pts.push((between(&st, a, b, m, q), [q[0] - m[0], q[1] - m[1]]));
            }
            _ => {
                let d = ray_dir(&st, a, b).ok_or_else(|| format!("{}: infinite", name()))?;
                let (o, ls): (V, &[f64]) = match (v0, v1) {
                    (Some(x), None) => (rv[x].q, &[0.5, 4.0, 1000.0]),
                    (None, Some(x)) => (rv[x].q, &[-0.5, -4.0, -1000.0]),
                    _ => (
                        match (a, b) {
                            (F::P(x), F::P(y)) => [(st.p[x][0] + st.p[y][0]) / 2.0, (st.p[x][1] + st.p[y][1]) / 2.0],
                            (F::P(x), _) | (_, F::P(x)) => st.p[x],
                            _ => unreachable!(),
                        },
                        &[-1000.0, -0.5, 0.5, 1000.0],
                    ),
                };
                for l in ls {
                    pts.push(([o[0] + l * size * d[0], o[1] + l * size * d[1]], d));
                }
            }
        }
        for (q, d) in pts {
            let r = st.clearance(q);
            let act = st.active_set(q, r, &mut g);
            ck!(
                act.contains(&a) && act.contains(&b),
                "{}: at {q:?} the nearest sites are {:?}",
                name(),
                act.iter().map(|f| describe(&st, *f)).collect::<Vec<_>>()
            );
            let side = |f: F, o: F| -> f64 {
                let t = match f {
                    F::P(p) if is_endpoint(&st, f, o) => {
                        // the point lies on the far side from its segment
                        let F::S(sg) = o else { unreachable!() };
                        let m = st.segs[sg].len / 2.0;
                        let far = if st.segs[sg].a == p { -m } else { m };
                        [q[0] + far * st.segs[sg].d[0], q[1] + far * st.segs[sg].d[1]]
                    }
                    F::S(sg) if is_endpoint(&st, f, o) => {
                        let F::P(p) = o else { unreachable!() };
                        let m = st.segs[sg].len / 2.0;
                        let far = if st.segs[sg].a == p { m } else { -m };
                        [q[0] + far * st.segs[sg].d[0], q[1] + far * st.segs[sg].d[1]]
                    }
                    F::P(p) => st.p[p],
                    F::S(sg) => {
                        let t = st.along(sg, q);
                        let o = st.p[st.segs[sg].a];
                        [o[0] + t * st.segs[sg].d[0], o[1] + t * st.segs[sg].d[1]]
                    }
                };
                d[0] * (t[1] - q[1]) - d[1] * (t[0] - q[0])
            };
            ck!(side(a, b) > 0.0, "{}: the left site is not on the left", name());
            ck!(side(b, a) < 0.0, "{}: the right site is not on the right", name());
        }
    }
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    Ok(Res { gap: g, dev })
}

// ---------------------------------------------------------------------------------------------
// validity of inputs and enumeration

fn orient(a: P, b: P, c: P) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}

/// strictly inside the segment
pub fn inside(s: S, p: P) -> bool {
    let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
    if p == a || p == b || orient(a, b, p) != 0 {
        return false;
    }
    let d = |u: P, v: P| (u[0] - v[0]) as i128 * (p[0] - v[0]) as i128 + (u[1] - v[1]) as i128 * (p[1] - v[1]) as i128;
    d(b, a) > 0 && d(a, b) > 0
}

/// The two segments meet in no point other than shared endpoints.
pub fn compatible(s: S, t: S) -> bool {
    let (a, b, c, d) = ([s[0], s[1]], [s[2], s[3]], [t[0], t[1]], [t[2], t[3]]);
    if inside(s, c) || inside(s, d) || inside(t, a) || inside(t, b) {
        return false;
    }
    if (a == c && b == d) || (a == d && b == c) {
        return false;
    }
    let (o1, o2) = (orient(a, b, c).signum(), orient(a, b, d).signum());
    let (o3, o4) = (orient(c, d, a).signum(), orient(c, d, b).signum());
    !(o1 * o2 < 0 && o3 * o4 < 0)
}

pub struct SegSpace {
    pub grid: Vec<P>,
    pub segs: Vec<S>,
    pub compat: Vec<Vec<bool>>,
}

impl SegSpace {
    pub fn new(w: i64, h: i64) -> SegSpace {
        SegSpace::over((0..w * h).map(|i| [i / h, i % h]).collect())
    }
    pub fn over(grid: Vec<P>) -> SegSpace {
        let mut segs = Vec::new();
        for i in 0..grid.len() {
            for j in i + 1..grid.len() {
                segs.push([grid[i][0], grid[i][1], grid[j][0], grid[j][1]]);
            }
        }
        let compat = segs.iter().map(|a| segs.iter().map(|b| compatible(*a, *b)).collect()).collect();
        SegSpace { grid, segs, compat }
    }
    /// All pairwise compatible sets with the given minimum index and at most k segments.
    pub fn sets(&self, set: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        f(set);
        if set.len() >= k {
            return;
        }
        let from = set.last().map_or(0, |x| x + 1);
        for i in from..self.segs.len() {
            if set.iter().all(|&j| self.compat[i][j]) {
                set.push(i);
                self.sets(set, k, f);
                set.pop();
            }
        }
    }
    /// grid points not touched by the segments
    pub fn free(&self, set: &[usize]) -> Vec<P> {
        self.grid
            .iter()
            .copied()
            .filter(|p| {
                set.iter().all(|&i| {
                    let s = self.segs[i];
                    !inside(s, *p) && [s[0], s[1]] != *p && [s[2], s[3]] != *p
                })
            })
            .collect()
    }
}
