//! P01..P04: the diagrams themselves.
use crate::cert;
use crate::fam::*;
use crate::input::*;
use crate::points;
use crate::refseg::Sites;
use crate::run::*;
use crate::scale;
use crate::segs;
use crate::snap::*;
use crate::topo;

/// Build with i32/f64 and take a snapshot.
pub fn snap(inp: &Input) -> Result<Snap, String> {
    let d = build::<i32, f64>(inp)?;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Snap::of(&d)))
        .map_err(|p| format!("reading the diagram panicked: {}", panic_text(p)))
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", panic_text(p))),
    }
}

pub const BIG: i64 = 2147483647;
/// Maps used for grids of extent 2..4.
pub fn maps_small() -> Vec<Map> {
    vec![map(1, -1000, 3000, 0), map(1000, 0, 0, 3), map(7, 100003, -70001, 4)]
}
pub fn maps_big() -> Vec<Map> {
    vec![map(1_000_003, 7, -1_000_000_009, 0), map(250_000_000, 1_000_000_000, 1_000_000_000, 7)]
}

fn report(ctx: &Ctx, w: &mut Worker, inp: &Input, m: &Map, r: Result<(), String>) {
    w.traces += 1;
    if let Err(e) = r {
        ctx.violation(&case_text(inp, m), &e);
    }
}

fn note(ctx: &Ctx, inp: &Input, m: &Map, s: &Snap) {
    if ctx.samples.lock().unwrap().len() < 12 {
        ctx.sample(format!(
            "{} -> {} cells, {} vertices, {} half-edges",
            case_text(inp, m),
            s.cells.len(),
            s.verts.len(),
            s.edges.len()
        ));
    }
}

/// mixed families (points and segments), small enough for cheap checks
fn mixed(quick: bool, full_range: bool) -> Vec<(Family, Vec<Map>)> {
    let mut v: Vec<(Family, Vec<Map>)> = Vec::new();
    let idm = vec![ID];
    let some = |x: Vec<Map>| -> Vec<Map> { let mut v = vec![ID]; v.extend(x); v };
    let all = || { let mut v = maps_small(); v.extend(maps_big()); v };
    v.push((point_subsets(4, 4, 0, 16), some(if quick { vec![maps_big()[1]] } else { all() })));
    if !quick {
        v.push((point_subsets(5, 5, 1, 8), idm.clone()));
    }
    v.push((seg_sets(3, 3, 1, if quick { 4 } else { 6 }, 9), idm.clone()));
    v.push((seg_sets(3, 3, 1, 3, if quick { 2 } else { 9 }), all()));
    v.push((seg_sets(4, 4, 1, 2, if quick { 2 } else { 4 }), idm.clone()));
    v.push((seg_sets(4, 4, 1, 2, 1), all()));
    v.push((seg_sets(4, 4, 3, 3, if quick { 0 } else { 1 }), idm.clone()));
    v.push((seg_sets(5, 4, 2, 2, if quick { 0 } else { 2 }), idm.clone()));
    v.push((outlines(1, if quick { 7 } else { 9 }), some(vec![maps_big()[0]])));
    v.push((stars(2, 2, if quick { 5 } else { 7 }), some(vec![maps_big()[0]])));
    v.push((stars(3, 2, if quick { 3 } else { 4 }), some(vec![maps_small()[1]])));
    v.push((blocks(2, 2, 4), some(all())));
    if !quick {
        v.push((blocks(3, 2, 4), idm.clone()));
    }
    v.push((quilts(if quick { 6 } else { 9 }, if quick { 9 } else { 17 }), some(vec![map(1_000_003, 7, -11, 3)])));
    v.push((quilts(5, 9), maps_small()));
    for al in [[-10000, 0, 1, 10000, 10001], [-1000, 0, 1, 1000, 1001], [-BIG - 1, -BIG + 1999, 0, 2000, BIG], [0, 1, 1000, 1001, 1_000_000]] {
        if al[4] == BIG && !full_range {
            continue;
        }
        v.push((seg_sets_al(&al, 1, 2, 0), vec![ID]));
        v.push((seg_sets_al(&al, 1, 1, if quick { 1 } else { 2 }), vec![ID]));
        v.push((seg_sets_al(&al[..4], 1, if quick { 2 } else { 3 }, if quick { 1 } else { 2 }), vec![ID]));
    }
    v.push((lattices(if quick { 30 } else { 60 }, if quick { 31 } else { 61 }), some(vec![map(30_000_000, -1_000_000_000, 5, 1)])));
    v
}

// ------------------------------------------------------------------------------------ P01
pub fn p01(ctx: &Ctx) {
    ctx.assume("inputs outside the enumerated families are not covered; coordinates are 32-bit");
    let mut fams = mixed(ctx.quick(), true);
    fams.push((scale::growing(0..scale::SHAPES, 1, if ctx.quick() { 150 } else { 500 }), vec![ID, map(1000, 0, 0, 3)]));
    fams.push((scale::grown_to(0..scale::SHAPES, if ctx.quick() { 1025 } else { 3000 }), vec![ID, map(1000, 0, 0, 3)]));
    for (fam, maps) in fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let r = snap(&inp.map(|p| m.p(p))).and_then(|s| {
                w.max("largest_number_of_half_edges", s.edges.len() as u64);
                note(ctx, inp, m, &s);
                topo::check(&s)
            });
            report(ctx, w, inp, m, r);
        });
    }
    let list = giants(ctx, false);
    scale::explore_giants(ctx, &list, |inp, w| {
        let s = snap(inp)?;
        w.max("largest_number_of_half_edges", s.edges.len() as u64);
        topo::check(&s)
    });
}
/// kinds of arrangements whose beach line stays short enough (it is a list) to grow beyond 2^16 objects
pub const GIANT_KINDS: [usize; 9] = [1, 4, 5, 9, 10, 11, 22, 25, 28];
/// the giants, in the thorough tier also all other kinds with some thousand objects
pub fn giants(ctx: &Ctx, points_only: bool) -> Vec<(String, Input)> {
    let mut v = scale::giants(points_only, &GIANT_KINDS, 66_000);
    if !ctx.quick() {
        let rest: Vec<usize> = (0..scale::SHAPES).filter(|k| !GIANT_KINDS.contains(k)).collect();
        v.extend(scale::giants(points_only, &rest, 5000));
    }
    v
}

// ------------------------------------------------------------------------------------ P02
fn points_one(inp: &Input, m: &Map, w: &mut Worker) -> Result<Snap, String> {
    let mapped = inp.map(|p| m.p(p));
    let s = snap(&mapped)?;
    topo::check(&s)?;
    let mut dev = points::Dev(0.0);
    let mag = mapped.pts.iter().flatten().fold(1.0f64, |m, c| m.max((*c as f64).abs()));
    guard(|| points::compare(&mapped, &s, 64.0 * f64::EPSILON, mag, &mut dev))?;
    w.max("max_deviation_in_2^-52", dev.0.ceil() as u64);
    Ok(s)
}

pub fn p02(ctx: &Ctx) {
    ctx.assume("reference: exact rational arithmetic; vertex coordinates may deviate by 64 ulps of the largest coordinate");
    let q = ctx.quick();
    let big = vec![
        map(1, 1_000_000_007, -1_000_000_009, 0),
        map(1, BIG - 4, BIG - 4, 4),
        map(1, -BIG - 1, -BIG - 1, 0),
        map(715_827_882, -BIG - 1, -BIG - 1, 0),
        map(1_000_003, 7, -1_000_000_009, 3),
    ];
    let mut fams: Vec<(Family, Vec<Map>)> = vec![
        (point_subsets(4, 4, 1, 16), vec![ID]),
        (point_subsets(4, 4, 1, if q { 6 } else { 16 }), big.clone()),
        (point_subsets(5, 5, 1, if q { 6 } else { 9 }), vec![ID]),
        (point_subsets(9, 2, 1, 18), vec![ID, map(1, 3, 5, 4)]),
        (point_subsets(7, 3, 1, if q { 5 } else { 21 }), vec![ID]),
        (point_subsets(8, 8, 1, if q { 3 } else { 4 }), vec![ID, map(30_000_000, 5, -7, 6)]),
        (lattices(if q { 40 } else { 97 }, if q { 41 } else { 97 }), vec![ID, map(20_000_000, -1_000_000_000, -1_000_000_000, 0)]),
    ];
    for r2 in if q { vec![65, 325] } else { vec![25, 65, 325, 1105, 5525] } {
        let c = circle(r2);
        let hi = match (q, c.len()) {
            (true, 16) => 7,
            (true, _) => 4,
            (false, n) if n <= 24 => 8,
            (false, n) if n <= 36 => 5,
            _ => 4,
        };
        fams.push((
            point_subsets_of(&format!("all sets of 1..{hi} integer points on the circle x^2+y^2={r2}"), c.clone(), 1, hi),
            vec![ID, map(10_000_019, 3, 1_000_000_000, 5)],
        ));
        let mut cc = c;
        cc.push([0, 0]);
        cc.push([1, 0]);
        fams.push((
            point_subsets_of(&format!("the same with the points (0,0) and (1,0), up to {}", hi - 1), cc, 1, hi - 1),
            vec![ID],
        ));
    }
    // extreme and neighbouring coordinates mixed
    let al: Vec<i64> = vec![-BIG - 1, -BIG, -1, 0, 1, BIG - 1, BIG];
    let grid = product(&al);
    fams.push((
        point_subsets_of("all sets of 1..3 points with coordinates in {-2^31, -2^31+1, -1, 0, 1, 2^31-2, 2^31-1}", grid, 1, if q { 3 } else { 4 }),
        vec![ID],
    ));
    let al: Vec<i64> = vec![0, 1, 2, 1000, 1001, 1_000_000, 1_000_001];
    let grid = product(&al);
    fams.push((
        point_subsets_of("all sets of 1..3 points with coordinates in {0, 1, 2, 10^3, 10^3+1, 10^6, 10^6+1}", grid, 1, if q { 3 } else { 4 }),
        vec![ID],
    ));
    for (fam, maps) in fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let r = points_one(inp, m, w).map(|s| note(ctx, inp, m, &s));
            report(ctx, w, inp, m, r);
        });
    }
    let one = |inp: &Input, w: &mut Worker| {
        let s = snap(inp)?;
        topo::check(&s)?;
        let worst = guard(|| scale::certify_points(inp, &s, 64.0 * f64::EPSILON))?;
        w.max("certificate_max_error_percent_of_tolerance", (worst * 100.0).ceil() as u64);
        Ok(())
    };
    let fam = scale::growing(0..scale::POINT_SHAPES, 1, if q { 300 } else { 1500 });
    explore(ctx, &fam, &[ID, map(1, -1000, 3000, 3), map(3, 70001, -100003, 4)], |inp, m, w| {
        let r = one(&inp.map(|p| m.p(p)), w);
        report(ctx, w, inp, m, r);
    });
    // the circles of the kinds 4 and 5 are large: looking for points inside takes too long
    let mut list = giants(ctx, true);
    list.retain(|l| !l.0.contains("kind 4") && !l.0.contains("kind 5"));
    list.extend(scale::giants(true, &[4, 5], 3000));
    scale::explore_giants(ctx, &list, |inp, w| one(inp, w));
}

// ------------------------------------------------------------------------------------ P03
/// exact (margin checked) comparison with the brute force reference in base coordinates
fn segs_exact(inp: &Input, m: &Map, w: &mut Worker) -> Result<Snap, String> {
    let mapped = inp.map(|p| m.p(p));
    let small = inp.map(|p| m.symm(p));
    let s0 = snap(&mapped)?;
    topo::check(&s0)?;
    let mut s = s0.clone();
    for v in s.verts.iter_mut() {
        (v.x, v.y) = m.undo(v.x, v.y);
    }
    let tol = 1e-9f64.max(1e-12 * m.unit_magnitude(0.0));
    match guard(|| segs::compare(&small, &s, tol, true)) {
        Ok(r) => {
            if r.gap.undecided() {
                w.add("reference_undecided", 1);
            }
            w.max("max_vertex_deviation_1e-18", (r.dev * 1e18) as u64);
        }
        Err(e) => {
            // is the reference itself sure?
            let mut g = crate::refseg::Gap::default();
            let _ = crate::refseg::vertices(&Sites::new(&small), &mut g);
            if g.undecided() {
                w.add("reference_undecided_and_different", 1);
            } else {
                return Err(e);
            }
        }
    }
    Ok(s0)
}

fn segs_cert(inp: &Input, m: &Map, w: &mut Worker) -> Result<Snap, String> {
    segs_cert_to(CERT, inp, m, w)
}
fn segs_cert_to(rel: f64, inp: &Input, m: &Map, w: &mut Worker) -> Result<Snap, String> {
    let mapped = inp.map(|p| m.p(p));
    let s = snap(&mapped)?;
    topo::check(&s)?;
    let worst = guard(|| cert::certify(&mapped, &s, rel))?;
    w.max("certificate_max_error_percent_of_tolerance", (worst * 100.0).ceil() as u64);
    Ok(s)
}
pub const CERT: f64 = 1e-10;
/// A site event and a circle event within 64 ulps of each other count as one: what they disagree on
/// is of the square root of that in size.
pub const CERT_TIED: f64 = 1e-6;

pub fn p03(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("reference: brute force over all pairs and triples of sites in f64, with the margin of every decision recorded (undecided cases are counted, not judged)");
    let some = |x: Vec<Map>| -> Vec<Map> { let mut v = vec![ID]; v.extend(x); v };
    let all = || { let mut v = maps_small(); v.extend(maps_big()); v };
    let fams: Vec<(Family, Vec<Map>)> = vec![
        (seg_sets(3, 3, 1, if q { 3 } else { 5 }, if q { 3 } else { 9 }), vec![ID]),
        (seg_sets(3, 3, 1, 2, 2), all()),
        (seg_sets(4, 4, 1, 2, if q { 1 } else { 3 }), vec![ID]),
        (seg_sets(4, 4, 1, 2, if q { 0 } else { 1 }), all()),
        (seg_sets(4, 4, 3, 3, 0), if q { vec![ID] } else { some(vec![maps_small()[0], maps_big()[0]]) }),
        (seg_sets(5, 5, 1, 1, 2), some(vec![maps_big()[0]])),
        (seg_sets(5, 5, 2, 2, if q { 0 } else { 1 }), some(vec![maps_small()[2]])),
        (outlines(1, if q { 5 } else { 7 }), some(vec![maps_big()[0], maps_small()[0]])),
        (stars(2, 2, if q { 4 } else { 6 }), some(vec![maps_big()[0]])),
    ];
    for (fam, maps) in fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let r = segs_exact(inp, m, w).map(|s| note(ctx, inp, m, &s));
            report(ctx, w, inp, m, r);
        });
    }
    let mut fams: Vec<(Family, Vec<Map>)> = vec![
        (blocks(2, 2, 4), some(all())),
        (quilts(if q { 5 } else { 8 }, if q { 9 } else { 17 }), some(vec![map(1_000_003, 7, -11, 3), maps_small()[0]])),
        (stars(3, 2, if q { 3 } else { 4 }), some(vec![maps_big()[0]])),
        (scale::growing(0..scale::SHAPES, 1, if q { 60 } else { 300 }), vec![ID, map(1000, 0, 0, 3)]),
        (scale::grown_to(0..scale::SHAPES, if q { 257 } else { 1025 }), vec![ID]),
    ];
    let near = [0, 1, 1000, 1001, 1_000_000];
    let mid = [0, 1, 30, 31, 1000];
    let around = [-1000, 0, 1, 1000, 1001];
    for al in [near, mid, around] {
        fams.push((seg_sets_al(&al, 1, 2, 0), vec![ID]));
        fams.push((seg_sets_al(&al, 1, 1, if q { 1 } else { 2 }), vec![ID]));
        fams.push((seg_sets_al(&al[..4], 1, if q { 2 } else { 3 }, if q { 1 } else { 2 }), vec![ID]));
    }
    // few sites on larger grids: arrangements of the beach line that need room
    for (w, h) in if q { vec![(8, 5), (5, 8)] } else { vec![(10, 6), (6, 10), (7, 7), (14, 4), (4, 14)] } {
        fams.push((seg_sets(w, h, 1, 1, 2), vec![ID]));
    }
    for (w, h) in if q { vec![(5, 4), (4, 5)] } else { vec![(7, 4), (4, 7), (6, 5)] } {
        fams.push((seg_sets(w, h, 1, 1, 3), vec![ID]));
    }
    for (w, h) in if q { vec![(6, 4), (4, 6)] } else { vec![(8, 4), (4, 8), (6, 6)] } {
        fams.push((seg_sets(w, h, 2, 2, 1), vec![ID]));
    }
    if !q {
        fams.push((seg_sets(5, 4, 3, 3, 1), vec![ID]));
        fams.push((seg_sets(5, 5, 3, 3, 0), vec![ID]));
        fams.push((blocks(3, 2, 4), vec![ID]));
    }
    for (fam, maps) in fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let r = segs_cert(inp, m, w).map(|s| note(ctx, inp, m, &s));
            report(ctx, w, inp, m, r);
        });
    }
    // small and large distances in one input: many circles that nearly touch a further site
    let scales: [&[i64]; 4] = [&[0, 1, 2, 50, 99, 100], &[0, 1, 2, 900, 901, 902], &[0, 1, 2, 30, 31, 32], &[0, 1, 10, 11, 100, 101]];
    let maps = [map(1_071_598, -275, 5, 4), map(1, 38_185, -888, 1), map(2_000_003, 11, -7, 3)];
    for (i, al) in scales.iter().enumerate() {
        let fams = [
            (seg_sets_al(al, 1, 1, 2), if q { vec![ID, maps[i % 3]] } else { some(maps.to_vec()) }),
            (seg_sets_al(al, 2, 2, if q { 0 } else { 1 }), if q { vec![maps[(i + 1) % 3]] } else { some(vec![maps[i % 3]]) }),
        ];
        for (fam, maps) in fams {
            explore(ctx, &fam, &maps, |inp, m, w| {
                let r = segs_cert_to(CERT_TIED, inp, m, w).map(|s| note(ctx, inp, m, &s));
                report(ctx, w, inp, m, r);
            });
        }
    }
}

// ------------------------------------------------------------------------------------ P04
pub fn p04(ctx: &Ctx) {
    let mut fams = mixed(ctx.quick(), false);
    fams.push((scale::growing(0..scale::SHAPES, 1, if ctx.quick() { 100 } else { 400 }), vec![ID, map(1000, 0, 0, 3)]));
    fams.push((scale::grown_to(0..scale::SHAPES, if ctx.quick() { 513 } else { 1025 }), vec![ID, map(1000, 0, 0, 3)]));
    for (fam, maps) in fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let mapped = inp.map(|p| m.p(p));
            let r = snap(&mapped).and_then(|s| {
                let st = Sites::new(inp);
                // identity of the sites does not depend on the map: use the base input
                let fs = segs::cells(inp, &st, &s)?;
                note(ctx, inp, m, &s);
                topo::check(&s)?;
                segs::flags(&st, &fs, &s)?;
                for (i, c) in s.cells.iter().enumerate() {
                    let e = segs::enclosed(&st, fs[i]);
                    if c.inc.is_none() != (e || st.n() == 1) {
                        return Err(format!("cell {i} of {}: degenerate {}, enclosed by its segments: {e}", segs::describe(&st, fs[i]), c.inc.is_none()));
                    }
                }
                // a vertex is marked as site point exactly if two segments meet there at an angle
                let ends: std::collections::BTreeSet<(i64, i64)> = (0..st.p.len())
                    .filter(|&e| {
                        let dir = |a: usize, b: usize| [(st.pts[b][0] - st.pts[a][0]) as i128, (st.pts[b][1] - st.pts[a][1]) as i128];
                        let d: Vec<[i128; 2]> = st.segs.iter().filter_map(|s| {
                            if s.a == e { Some(dir(s.a, s.b)) } else if s.b == e { Some(dir(s.b, s.a)) } else { None }
                        }).collect();
                        d.iter().any(|x| x[0] * d[0][1] != x[1] * d[0][0])
                    })
                    .map(|e| { let p = m.p(st.pts[e]); (p[0], p[1]) })
                    .collect();
                let mut n = 0;
                for (i, v) in s.verts.iter().enumerate() {
                    let at = v.x.fract() == 0.0 && v.y.fract() == 0.0 && ends.contains(&(v.x as i64, v.y as i64));
                    if v.site != at {
                        return Err(format!("vertex {i} at ({}, {}): is_site_point {}", v.x, v.y, v.site));
                    }
                    n += at as usize;
                }
                if n != ends.len() {
                    return Err(format!("{n} vertices at the {} endpoints where segments meet at an angle", ends.len()));
                }
                Ok(())
            });
            report(ctx, w, inp, m, r);
        });
    }
    scale::explore_giants(ctx, &giants(ctx, false), |inp, _| {
        let s = snap(inp)?;
        let st = Sites::new(inp);
        let fs = segs::cells(inp, &st, &s)?;
        segs::flags(&st, &fs, &s)
    });
}

// ------------------------------------------------------------------------------------ P22
pub fn ulp_families(q: bool) -> Vec<(Family, Vec<Map>)> {
    let mut fams = mixed(q, false);
    let far = vec![ID, map(1, 1_000_000_007, -1_000_000_009, 0), map(1_000_003, 7, -1_000_000_009, 3)];
    for al in [[0, 1, 30, 31, 1000], [-31, -30, 0, 1, 2], [0, 3, 7, 100, 101]] {
        fams.push((seg_sets_al(&al, 1, 2, 0), vec![ID]));
        fams.push((seg_sets_al(&al, 1, 1, if q { 1 } else { 2 }), far.clone()));
        fams.push((seg_sets_al(&al[..4], 1, if q { 2 } else { 3 }, 1), if q { vec![ID] } else { far.clone() }));
    }
    fams.push((seg_sets(6, 6, 1, 1, if q { 1 } else { 2 }), far.clone()));
    fams.push((point_subsets(6, 6, 3, if q { 4 } else { 5 }), far.clone()));
    fams.push((scale::growing(0..scale::SHAPES, 1, if q { 40 } else { 200 }), vec![ID, map(10_007, 1_000_000_007, -1_000_000_009, 3)]));
    fams.push((scale::grown_to(0..scale::SHAPES, if q { 257 } else { 1025 }), vec![ID]));
    fams
}

pub fn p22(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("reference: Newton's method in double-double arithmetic from the vertex itself; its error estimate is subtracted");
    for (fam, maps) in ulp_families(q) {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let mapped = inp.map(|p| m.p(p));
            let r = snap(&mapped).and_then(|s| {
                note(ctx, inp, m, &s);
                let f = guard(|| crate::acc::accuracy(&mapped, &s, 128.0))?;
                w.max("largest_deviation_in_2^-52", f.worst.ceil() as u64);
                w.add("vertices", f.vertices);
                w.add("vertices_without_exact_counterpart", f.unsure);
                Ok(())
            });
            report(ctx, w, inp, m, r);
        });
    }
}
