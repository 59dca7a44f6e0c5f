//! Certificate check for inputs of any size: every vertex, every edge and every cell of the diagram
//! is checked against the definition of the Voronoi diagram, with a tolerance relative to the size
//! of the coordinates.
use crate::input::*;
use crate::refseg::*;
use crate::segs::*;
use crate::snap::*;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn add(a: V, t: f64, d: V) -> V {
    [a[0] + t * d[0], a[1] + t * d[1]]
}

/// `fs`: the site of every cell. Returns the largest error in units of the tolerance.
pub fn certify(inp: &Input, s: &Snap, rel: f64) -> Result<f64, String> {
    // coordinates relative to the first site: differences of integers are exact
    let o = inp.pts.first().copied().or(inp.segs.first().map(|s| [s[0], s[1]])).unwrap_or([0, 0]);
    let loc = inp.map(|p| [p[0] - o[0], p[1] - o[1]]);
    let st = Sites::new(&loc);
    let fs = cells(&loc, &st, s)?;
    flags(&st, &fs, s)?;
    let mag = inp
        .pts
        .iter()
        .flatten()
        .chain(inp.segs.iter().flatten())
        .fold(1.0f64, |m, c| m.max((*c as f64).abs()));
    let size = st.p.iter().flatten().fold(1.0f64, |m, c| m.max(c.abs()));
    let base_tol = rel * mag;
    let mut worst: f64 = 0.0;
    let q: Vec<V> = s.verts.iter().map(|v| [v.x - o[0] as f64, v.y - o[1] as f64]).collect();
    let d = |f: F| describe(&st, f);
    // distance of the site's own region: the point itself, or the open strip of the segment
    let check = |q: V, r: f64, f: F, tol: f64, what: &dyn Fn() -> String| -> Result<f64, String> {
        match f {
            F::P(p) => {
                let e = (st.dist(f, q) - r).abs();
                ck!(e <= tol, "{}: distance to {} is off by {e:e}", what(), d(f));
                for sg in st.segs.iter().filter(|g| g.a == p || g.b == p) {
                    let dir = if sg.a == p { sg.d } else { [-sg.d[0], -sg.d[1]] };
                    let t = (q[0] - st.p[p][0]) * dir[0] + (q[1] - st.p[p][1]) * dir[1];
                    // what counts is by how much the segment is closer than its endpoint
                    ck!(t <= tol || (t < r && r - (r * r - t * t).sqrt() <= tol), "{}: {} is seen from inside the strip of its segment ({t:e})", what(), d(f));
                }
                Ok(e / tol)
            }
            F::S(k) => {
                let e = (st.sd(k, q).abs() - r).abs();
                ck!(e <= tol, "{}: distance to {} is off by {e:e}", what(), d(f));
                let t = st.along(k, q);
                let out = (-t).max(t - st.segs[k].len).max(0.0);
                ck!(out <= tol || r.hypot(out) - r <= tol, "{}: beyond the end of {} by {out:e}", what(), d(f));
                Ok(e / tol)
            }
        }
    };
    // the sites of the cells around a vertex
    let around = |v: usize| {
        let e0 = s.verts[v].inc.unwrap();
        let mut l = vec![fs[s.edges[e0].cell.unwrap()]];
        let mut e = s.edges[s.edges[e0].prev.unwrap()].twin.unwrap();
        while e != e0 {
            l.push(fs[s.edges[e].cell.unwrap()]);
            e = s.edges[s.edges[e].prev.unwrap()].twin.unwrap();
        }
        l.into_iter()
    };
    for (i, v) in s.verts.iter().enumerate() {
        let r = st.clearance(q[i]);
        // a point far away from all sites has coordinates with larger rounding errors
        let far = 1.0 + (q[i][0].abs().max(q[i][1].abs())) / mag;
        let tol = base_tol * far;
        let what = || format!("vertex {i} at ({}, {})", v.x, v.y);
        let e0 = v.inc.unwrap();
        let mut e = e0;
        loop {
            let f = fs[s.edges[e].cell.unwrap()];
            worst = worst.max(check(q[i], r, f, tol, &what)?);
            e = s.edges[s.edges[e].prev.unwrap()].twin.unwrap();
            if e == e0 {
                break;
            }
        }
    }
    for (i, c) in s.cells.iter().enumerate() {
        let e = enclosed(&st, fs[i]);
        ck!(
            c.inc.is_none() == (e || st.n() == 1),
            "cell {i} of {}: degenerate {}, enclosed by segments {e}",
            d(fs[i]),
            c.inc.is_none()
        );
    }
    for (i, e) in s.edges.iter().enumerate() {
        let a = fs[e.cell.unwrap()];
        let b = fs[s.edges[e.twin.unwrap()].cell.unwrap()];
        let what = || format!("edge {i} between {} (left) and {} (right)", d(a), d(b));
        let (v0, v1) = (e.v0.map(|v| q[v]), s.v1(i).map(|v| q[v]));
        let mut pts: Vec<(V, V)> = Vec::new();
        let reach = [v0, v1].iter().flatten().flatten().fold(0.0f64, |m, c| m.max(c.abs()));
        match (v0, v1) {
            (Some(x), Some(y)) => {
                let l = (y[0] - x[0]).hypot(y[1] - x[1]);
                let far = 1.0 + x[0].abs().max(x[1].abs()).max(y[0].abs()).max(y[1].abs()) / mag;
                if l <= 32.0 * base_tol * far {
                    continue;
                }
                // At both ends all sites of both ends are equally near to within rounding: the edge is
                // shorter than what can be resolved there, its direction is not decided.
                let near: Vec<F> = around(e.v0.unwrap()).chain(around(s.v1(i).unwrap())).collect();
                if [x, y].iter().all(|z| {
                    let r = st.clearance(*z);
                    let eps = 64.0 * f64::EPSILON * (r + mag);
                    near.iter().all(|f| check(*z, r, *f, eps, &what).is_ok())
                }) {
                    continue;
                }
                let m = between(&st, a, b, x, y);
                let m0 = between(&st, a, b, x, m);
                let m1 = between(&st, a, b, m, y);
                for (z, f, t) in [(m, x, y), (m0, x, m), (m1, m, y)] {
                    pts.push((z, [t[0] - f[0], t[1] - f[1]]));
                }
            }
            _ => {
                let dir = ray_dir(&st, a, b).ok_or_else(|| format!("{}: infinite", what()))?;
                let (o, ls): (V, &[f64]) = match (v0, v1) {
                    (Some(x), None) => (x, &[0.5, 4.0, 100.0]),
                    (None, Some(x)) => (x, &[-0.5, -4.0, -100.0]),
                    _ => (
                        match (a, b) {
                            (F::P(x), F::P(y)) => {
                                [(st.p[x][0] + st.p[y][0]) / 2.0, (st.p[x][1] + st.p[y][1]) / 2.0]
                            }
                            (F::P(x), _) | (_, F::P(x)) => st.p[x],
                            _ => unreachable!(),
                        },
                        &[-100.0, -0.5, 0.5, 100.0],
                    ),
                };
                for l in ls {
                    pts.push((add(o, l * size, dir), dir));
                }
            }
        }
        for (z, dir) in pts {
            let r = st.clearance(z);
            let tol = base_tol * (2.0 + 2.0 * (z[0].abs().max(z[1].abs()).max(reach)) / mag);
            worst = worst.max(check(z, r, a, tol, &what)?);
            worst = worst.max(check(z, r, b, tol, &what)?);
            // the straight direction of a chord is good enough for the side test
            let side = |f: F, o: F| -> f64 {
                let t = match (f, o) {
                    (F::P(p), F::S(sg)) if st.segs[sg].a == p || st.segs[sg].b == p => {
                        let g = &st.segs[sg];
                        add(z, if g.a == p { -g.len } else { g.len }, g.d)
                    }
                    (F::S(sg), F::P(p)) if st.segs[sg].a == p || st.segs[sg].b == p => {
                        let g = &st.segs[sg];
                        add(z, if g.a == p { g.len } else { -g.len }, g.d)
                    }
                    (F::P(p), _) => st.p[p],
                    (F::S(sg), _) => add(st.p[st.segs[sg].a], st.along(sg, z), st.segs[sg].d),
                };
                let l = dir[0].hypot(dir[1]);
                (dir[0] * (t[1] - z[1]) - dir[1] * (t[0] - z[0])) / l
            };
            ck!(side(a, b) > -tol, "{}: the left site is not on the left", what());
            ck!(side(b, a) < tol, "{}: the right site is not on the right", what());
        }
    }
    Ok(worst)
}
