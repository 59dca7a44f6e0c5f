//! Inputs of all sizes: arrangements that grow with a number n, enumerated for every n up to a bound, and a few
//! giants beyond 2^16 records. They reach long beach lines, cells and vertices with many edges, and large counts.
use crate::fam::*;
use crate::input::*;
use crate::run::*;
use crate::snap::*;

pub const POINT_SHAPES: usize = 12;
pub const SHAPES: usize = 32;

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

/// n primitive directions, spread over the full turn
fn directions(n: usize) -> Vec<P> {
    let mut r = 1;
    loop {
        let mut d: Vec<P> = Vec::new();
        for x in -r..=r {
            for y in -r..=r {
                if gcd(x, y) == 1 {
                    d.push([x, y]);
                }
            }
        }
        if d.len() >= n {
            d.sort_by(|a, b| (a[1] as f64).atan2(a[0] as f64).partial_cmp(&(b[1] as f64).atan2(b[0] as f64)).unwrap());
            return (0..n).map(|i| d[i * d.len() / n]).collect();
        }
        r += 1;
    }
}

/// One arrangement of about n objects.
pub fn shape_n(k: usize, n: i64) -> Input {
    let mut p: Vec<P> = Vec::new();
    let mut s: Vec<S> = Vec::new();
    let root = (n as f64).sqrt().ceil() as i64;
    match k {
        // points
        0 => p = (0..n).map(|i| [i, 0]).collect(),
        1 => p = (0..n).map(|i| [0, i]).collect(),
        2 => p = (0..n).map(|i| [i, 2 * i]).collect(),
        3 => {
            // the cell of the point above has n edges
            p = (0..n).map(|i| [2 * i, 0]).collect();
            p.push([n, 3 * n]);
        }
        4 => {
            p = (0..n).map(|i| [0, 2 * i]).collect();
            p.push([3 * n, n]);
        }
        5 => {
            p = (0..n).map(|i| [0, 2 * i]).collect();
            p.push([-3 * n, n]);
        }
        6 => p = (0..n).map(|i| [i, i * i]).collect(),
        7 => p = (0..n).map(|i| [(i - n / 2) * (i - n / 2), i]).collect(),
        8 => p = (0..n).map(|i| [i / 2, (i % 2) * 3]).collect(),
        9 => p = (0..n).map(|i| [i % root * 2, i / root * 2]).collect(),
        10 => p = (0..n).map(|i| [i % root * 7 + (i * i) % 5, i / root * 7 + (i * 3) % 7 % 5]).collect(),
        11 => {
            // a fan of points around a centre
            p = directions(n as usize).iter().map(|d| [d[0] * 5, d[1] * 5]).collect();
            p.push([0, 0]);
        }
        // segments
        12 => s = (0..n).map(|i| [2 * i, 0, 2 * i, 3 + i % 2]).collect(),
        13 => s = (0..n).map(|i| [0, 2 * i, 3 + i % 3, 2 * i]).collect(),
        14 => s = (0..n).map(|i| [i, i % 2 * 2, i + 1, (i + 1) % 2 * 2]).collect(),
        15 => s = (0..n).map(|i| [i % 2 * 2, i, (i + 1) % 2 * 2, i + 1]).collect(),
        16 => s = (0..n).map(|i| [(i + 1) / 2, i / 2, (i + 2) / 2, (i + 1) / 2]).collect(),
        17 => {
            for i in 1..=(n + 3) / 4 {
                s.extend([[-i, -i, i, -i], [i, -i, i, i], [i, i, -i, i], [-i, i, -i, -i]]);
            }
        }
        18 => s = directions(n as usize).iter().map(|d| [0, 0, d[0], d[1]]).collect(),
        19 => {
            // a convex polygon with a point inside of it
            let q: Vec<P> = (0..n + 2).map(|i| [i, i * (n + 1 - i)]).collect();
            for w in q.windows(2) {
                s.push([w[0][0], w[0][1], w[1][0], w[1][1]]);
            }
            s.push([n + 1, 0, 0, 0]);
            if n > 3 {
                p.push([n / 2, 1]);
            }
        }
        20 => {
            // a ladder
            for i in 0..n / 3 + 1 {
                s.extend([[2 * i, 0, 2 * i + 2, 0], [2 * i, 2, 2 * i + 2, 2], [2 * i, 0, 2 * i, 2]]);
            }
        }
        21 => s = (0..n).map(|i| [i, 0, i + 1, 0]).collect(),
        22 => s = (0..n).map(|i| [0, i, 0, i + 1]).collect(),
        23 => s = (0..n).map(|i| [i, 2 * i, i + 1, 2 * i + 2]).collect(),
        24 => {
            // one segment faces n points
            s.push([0, 0, 3 * n, 0]);
            p = (0..n).map(|i| [3 * i + 1, 4 + i % 3]).collect();
        }
        25 => {
            s.push([0, 0, 0, 3 * n]);
            p = (0..n).map(|i| [if i % 2 == 0 { 5 } else { -5 }, 3 * i + 1]).collect();
        }
        26 => {
            // one point faces n segments
            s = (0..n).map(|i| [3 * i, 0, 3 * i + 2, i % 2]).collect();
            p.push([3 * n / 2, 3 * n]);
        }
        27 => {
            for i in 0..n {
                let o = [i % root * 4, i / root * 4];
                let mut b = Input::default();
                shape((i % 9) as usize, o, &mut b);
                p.extend(b.pts);
                s.extend(b.segs);
            }
        }
        28 => {
            // a grid of unit squares
            for i in 0..n / 2 {
                let (x, y) = (i % root, i / root);
                s.extend([[x, y, x + 1, y], [x, y, x, y + 1]]);
            }
        }
        29 => {
            // two combs that mesh
            s = (0..n).map(|i| if i % 2 == 0 { [2 * i, 0, 2 * i, 20] } else { [2 * i, 2, 2 * i, 22] }).collect();
            s.push([-2, -1, 2 * n, -1]);
            s.push([-2, 23, 2 * n, 23]);
        }
        30 => {
            // a spiral
            let (mut x, mut y) = (0, 0);
            for i in 0..n {
                let l = (i / 2 + 1) * 2;
                let d = [[1, 0], [0, 1], [-1, 0], [0, -1]][(i % 4) as usize];
                let (a, b) = (x + d[0] * l, y + d[1] * l);
                s.push([x, y, a, b]);
                (x, y) = (a, b);
            }
        }
        _ => {
            // slanted parallel segments, alternating direction
            s = (0..n).map(|i| if i % 2 == 0 { [3 * i, 0, 3 * i + 7, 5] } else { [3 * i + 7, 5, 3 * i, 0] }).collect();
        }
    }
    Input { pts: p, segs: s }
}

/// All shapes `ks` for all n in lo..=hi.
pub fn growing(ks: std::ops::Range<usize>, lo: i64, hi: i64) -> Family {
    grown(ks, format!("all n = {lo}..{hi}"), (lo..=hi).rev().collect())
}

/// All shapes `ks` for the given sizes: around the powers of two, where counters and tables overflow or grow.
pub fn grown_to(ks: std::ops::Range<usize>, hi: i64) -> Family {
    let mut ns: Vec<i64> = Vec::new();
    for b in [128, 256, 512, 1024, 2048] {
        ns.extend([b - 1, b, b + 1]);
    }
    ns.extend([200, 300, 400, 700, 1500, 3000]);
    ns.retain(|n| *n <= hi);
    ns.sort();
    ns.reverse();
    grown(ks, format!("n = {ns:?}"), ns)
}

fn grown(ks: std::ops::Range<usize>, text: String, ns: Vec<i64>) -> Family {
    Family {
        name: format!("growing arrangements: {} kinds (rows, fans, combs, chains, nested squares, stars, polygons, grids, spirals...) of n objects for {text}", ks.len()),
        chunks: ns.len() * ks.len(),
        // large ones first
        gen: Box::new(move |c, f| f(shape_n(ks.start + c % ks.len(), ns[c / ks.len()]))),
    }
}

/// (name, input): more than 2^16 points or sites
pub fn giants(points_only: bool, ks: &[usize], n: i64) -> Vec<(String, Input)> {
    ks.iter()
        .filter(|k| !points_only || **k < POINT_SHAPES)
        .map(|&k| (format!("giant: kind {k} with n = {n}"), shape_n(k, n)))
        .collect()
}

pub fn explore_giants(ctx: &Ctx, list: &[(String, Input)], f: impl Fn(&Input, &mut Worker) -> Result<(), String> + Sync) {
    let t: Vec<&str> = list.iter().map(|l| l.0.as_str()).collect();
    ctx.explore(&t.join(", "), list.len(), |c, w| {
        let (name, inp) = &list[c];
        if !w.begin(|| name.clone()) {
            return;
        }
        w.states += 1;
        w.traces += 1;
        w.transitions += (inp.pts.len() + inp.segs.len()) as u64;
        if let Err(e) = f(inp, w) {
            ctx.violation(name, &e);
        }
        w.end();
    });
}

// ---------------------------------------------------------------------------------------------
// exact certificate for points

fn cross(a: P, b: P, c: P) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}

/// > 0: d is inside of the circle through a, b, c (counter-clockwise). Coordinates of up to 2^30.
fn incircle(a: P, b: P, c: P, d: P) -> i128 {
    let r = |p: P| ((p[0] - d[0]) as i128, (p[1] - d[1]) as i128);
    let ((ax, ay), (bx, by), (cx, cy)) = (r(a), r(b), r(c));
    (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay)
}

fn hull(p: &[P]) -> Vec<P> {
    let mut h: Vec<P> = Vec::new();
    for pass in 0..2 {
        let start = h.len();
        let it: Box<dyn Iterator<Item = &P>> = if pass == 0 { Box::new(p.iter()) } else { Box::new(p.iter().rev()) };
        for &q in it {
            // collinear points of the hull are kept
            while h.len() >= start + 2 && cross(h[h.len() - 2], h[h.len() - 1], q) < 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

/// The diagram of `inp` (points) is the Voronoi diagram: the sites around each vertex form a convex polygon on an empty
/// circle (exactly), these polygons fill the hull (exactly), rays leave between neighbours of the hull.
pub fn certify_points(inp: &Input, s: &Snap, tol: f64) -> Result<f64, String> {
    let (d, map) = crate::points::cells(inp, s)?;
    let site = |e: usize| d[map[s.edges[e].cell.unwrap()]];
    if d.len() == 1 {
        return if s.edges.is_empty() { Ok(0.0) } else { Err("edges with one point".into()) };
    }
    let h = hull(&d);
    let area2: i128 = h.iter().zip(h.iter().cycle().skip(1)).map(|(a, b)| a[0] as i128 * b[1] as i128 - b[0] as i128 * a[1] as i128).sum();
    let mut rays: Vec<(P, P)> = Vec::new();
    for (i, e) in s.edges.iter().enumerate() {
        if !e.linear || !e.primary {
            return Err(format!("edge {i} between points is not linear and primary"));
        }
        if e.v0.is_none() {
            // comes from infinity: the cell on its left, then the one on its right, clockwise on the hull
            rays.push((site(i), site(e.twin.unwrap())));
        }
    }
    if area2 == 0 {
        // all on a line
        if !s.verts.is_empty() || s.edges.len() != 2 * (d.len() - 1) {
            return Err(format!("{} vertices, {} half-edges for {} points on a line", s.verts.len(), s.edges.len(), d.len()));
        }
        rays.sort();
        let mut want: Vec<(P, P)> = d.windows(2).flat_map(|w| [(w[0], w[1]), (w[1], w[0])]).collect();
        want.sort();
        return if rays == want { Ok(0.0) } else { Err("the edges are not those between neighbours on the line".into()) };
    }
    let mut want: Vec<(P, P)> = h.iter().zip(h.iter().cycle().skip(1)).map(|(a, b)| (*a, *b)).collect();
    want.sort();
    rays.sort();
    let rev: Vec<(P, P)> = { let mut v: Vec<(P, P)> = rays.iter().map(|r| (r.1, r.0)).collect(); v.sort(); v };
    if rays != want && rev != want {
        return Err(format!("{} rays, not those of the {} neighbours of the hull", rays.len(), want.len()));
    }
    // buckets
    let (lo, hi) = d.iter().fold(([i64::MAX; 2], [i64::MIN; 2]), |(l, h), p| ([l[0].min(p[0]), l[1].min(p[1])], [h[0].max(p[0]), h[1].max(p[1])]));
    let m = ((d.len() as f64).sqrt() as i64 + 1).min(512);
    let cell = [(hi[0] - lo[0]) / m + 1, (hi[1] - lo[1]) / m + 1];
    let mut bucket: Vec<Vec<u32>> = vec![vec![]; (m * m) as usize];
    for (i, p) in d.iter().enumerate() {
        bucket[((p[0] - lo[0]) / cell[0] * m + (p[1] - lo[1]) / cell[1]) as usize].push(i as u32);
    }
    let mut sum: i128 = 0;
    let mut worst = 0.0f64;
    let mag = d.iter().flatten().fold(1.0f64, |m, c| m.max((*c as f64).abs()));
    for (i, v) in s.verts.iter().enumerate() {
        let e0 = v.inc.unwrap();
        let mut poly = vec![site(e0)];
        let mut e = s.edges[s.edges[e0].prev.unwrap()].twin.unwrap();
        while e != e0 {
            poly.push(site(e));
            e = s.edges[s.edges[e].prev.unwrap()].twin.unwrap();
        }
        let name = || format!("vertex {i} at ({}, {})", v.x, v.y);
        let n = poly.len();
        if n < 3 {
            return Err(format!("{}: only {n} sites", name()));
        }
        for k in 0..n {
            let (a, b, c) = (poly[k], poly[(k + 1) % n], poly[(k + 2) % n]);
            let o = cross(a, b, c);
            if o <= 0 {
                return Err(format!("{}: the sites {a:?} {b:?} {c:?} around it are not in counter-clockwise order", name()));
            }
            if k < n - 2 {
                sum += cross(poly[0], poly[k + 1], poly[k + 2]);
            }
            if k > 2 && incircle(poly[0], poly[1], poly[2], poly[k]) != 0 {
                return Err(format!("{}: the {n} sites around it are not on one circle", name()));
            }
        }
        // the centre, relative to poly[0]
        let a = poly[0];
        let r = |p: P| ((p[0] - a[0]) as i128, (p[1] - a[1]) as i128);
        let ((bx, by), (cx, cy)) = (r(poly[1]), r(poly[2]));
        let den = 2 * (bx * cy - by * cx);
        let (b2, c2) = (bx * bx + by * by, cx * cx + cy * cy);
        let (ux, uy) = ((cy * b2 - by * c2) as f64 / den as f64, (bx * c2 - cx * b2) as f64 / den as f64);
        let (x, y) = (a[0] as f64 + ux, a[1] as f64 + uy);
        let far = mag.max(x.abs()).max(y.abs());
        let dev = (x - v.x).abs().max((y - v.y).abs()) / far;
        worst = worst.max(dev / tol);
        if dev > tol {
            return Err(format!("{}: the centre is ({x}, {y})", name()));
        }
        // empty: exact test of the points that may be inside
        let rad = ux.hypot(uy) * (1.0 + 1e-9) + 1.0;
        let b = |v: f64, k: usize| -> i64 { (((v - lo[k] as f64) / cell[k] as f64).floor()).clamp(0.0, (m - 1) as f64) as i64 };
        for bx in b(x - rad, 0)..=b(x + rad, 0) {
            for by in b(y - rad, 1)..=b(y + rad, 1) {
                for &k in &bucket[(bx * m + by) as usize] {
                    let p = d[k as usize];
                    // clearly outside
                    if (p[0] as f64 - x).hypot(p[1] as f64 - y) > rad || poly.contains(&p) {
                        continue;
                    }
                    if incircle(poly[0], poly[1], poly[2], p) >= 0 {
                        return Err(format!("{}: the point {p:?} is as near as the {n} sites around it", name()));
                    }
                }
            }
        }
    }
    if sum != area2 {
        return Err(format!("the sites around the vertices fill an area of {sum}/2, the hull has {area2}/2: vertices are missing or double"));
    }
    Ok(worst)
}
