//! P05: the diagram depends on the set of sites only. P06: the diagram of a similar input is the
//! similar diagram.
use crate::diag::{guard, maps_big, maps_small};
use crate::fam::*;
use crate::input::*;
use crate::run::*;
use crate::snap::*;
use crate::topo;
use boostvoronoi::prelude::*;
use std::collections::BTreeMap;

/// A site by its coordinates: (false, p, p) for a point, (true, a, b) with a < b for a segment.
pub type Key = (bool, P, P);

/// The sites of the cells; every site of the input has exactly one cell.
pub fn keys(inp: &Input, s: &Snap) -> Result<Vec<Key>, String> {
    let mut out = Vec::with_capacity(s.cells.len());
    for (i, c) in s.cells.iter().enumerate() {
        let k = if c.src < inp.pts.len() {
            if c.cat != Cat::Single {
                return Err(format!("cell {i} of input point {} has category {:?}", c.src, c.cat));
            }
            (false, inp.pts[c.src], inp.pts[c.src])
        } else {
            let g = inp.segs.get(c.src - inp.pts.len()).ok_or_else(|| format!("cell {i}: source index {} out of range", c.src))?;
            let (a, b) = ([g[0], g[1]], [g[2], g[3]]);
            match c.cat {
                Cat::Single if a == b => (false, a, a),
                Cat::Start if a != b => (false, a, a),
                Cat::End if a != b => (false, b, b),
                Cat::Seg if a != b => (true, a.min(b), a.max(b)),
                _ => return Err(format!("cell {i}: category {:?} for the segment {g:?}", c.cat)),
            }
        };
        out.push(k);
    }
    let mut want = Vec::new();
    for p in &inp.pts {
        want.push((false, *p, *p));
    }
    for g in &inp.segs {
        let (a, b) = ([g[0], g[1]], [g[2], g[3]]);
        want.push((false, a, a));
        if a != b {
            want.push((false, b, b));
            want.push((true, a.min(b), a.max(b)));
        }
    }
    want.sort();
    want.dedup();
    let mut have = out.clone();
    have.sort();
    if have != want {
        return Err(format!("the cells are those of {have:?}, the sites are {want:?}"));
    }
    Ok(out)
}

type CEdge = (Key, Key, Option<(u64, u64)>, Option<(u64, u64)>, bool, bool);

/// The diagram without any ids: edges with the edge that follows each, and vertices.
#[derive(PartialEq, Debug)]
pub struct Canon {
    edges: Vec<(CEdge, Option<CEdge>)>,
    verts: Vec<(u64, u64, bool)>,
    no_edges: Vec<Key>,
}

pub fn canon(ks: &[Key], s: &Snap, f32s: bool) -> Canon {
    let b = |v: f64| if f32s { (v as f32 + 0.0) as f64 } else { v + 0.0 }.to_bits();
    let vx = |v: Option<usize>| v.map(|v| (b(s.verts[v].x), b(s.verts[v].y)));
    let ed = |i: usize| -> CEdge {
        let e = &s.edges[i];
        let t = e.twin.unwrap();
        (ks[e.cell.unwrap()], ks[s.edges[t].cell.unwrap()], vx(e.v0), vx(s.v1(i)), e.linear, e.primary)
    };
    let mut edges: Vec<_> = (0..s.edges.len()).map(|i| (ed(i), s.edges[i].next.map(ed))).collect();
    edges.sort();
    let mut verts: Vec<_> = s.verts.iter().map(|v| (b(v.x), b(v.y), v.site)).collect();
    verts.sort();
    let mut no_edges: Vec<Key> = s.cells.iter().filter(|c| c.inc.is_none()).map(|c| ks[c.id]).collect();
    no_edges.sort();
    Canon { edges, verts, no_edges }
}

impl Canon {
    pub fn diff(&self, o: &Canon) -> String {
        if self.no_edges != o.no_edges {
            return format!("cells without edges {:?} instead of {:?}", o.no_edges, self.no_edges);
        }
        if self.verts != o.verts {
            let f = |c: &Canon| c.verts.iter().map(|v| (f64::from_bits(v.0), f64::from_bits(v.1), v.2)).collect::<Vec<_>>();
            let (a, b) = (f(self), f(o));
            let x: Vec<_> = a.iter().filter(|v| !b.contains(v)).take(3).collect();
            let y: Vec<_> = b.iter().filter(|v| !a.contains(v)).take(3).collect();
            return format!("vertices {y:?} instead of {x:?} ({} instead of {} vertices)", b.len(), a.len());
        }
        for (a, b) in self.edges.iter().zip(&o.edges) {
            if a != b {
                return format!("edge {b:?} instead of {a:?}");
            }
        }
        format!("{} half-edges instead of {}", o.edges.len(), self.edges.len())
    }
}

/// A way to hand the same sites to the builder.
#[derive(Clone, Debug)]
struct Var {
    name: String,
    inp: Input,
    /// positions at which a new with_vertices/with_segments call starts
    pcut: Vec<usize>,
    scut: Vec<usize>,
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(cur, n, out);
                cur.pop();
            }
        }
    }
    if n <= 4 {
        rec(&mut Vec::new(), n, &mut out);
    } else {
        // rotations, reversal, and a stride
        let id: Vec<usize> = (0..n).collect();
        out.push(id.clone());
        let mut r = id.clone();
        r.reverse();
        out.push(r);
        let mut q = id.clone();
        q.rotate_left(n / 2);
        out.push(q);
        out.push((0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect());
    }
    out
}

fn variants(b: &Input, full: bool) -> Vec<Var> {
    let mut out = Vec::new();
    let mut add = |name: String, inp: Input, pcut: Vec<usize>, scut: Vec<usize>| out.push(Var { name, inp, pcut, scut });
    add("again".into(), b.clone(), vec![], vec![]);
    // order
    let (pp, sp) = (permutations(b.pts.len()), permutations(b.segs.len()));
    for (i, p) in pp.iter().enumerate() {
        for (j, q) in sp.iter().enumerate() {
            if (i == 0 && j == 0) || (!full && i != 0 && j != 0 && (i + j) % 3 != 0) {
                continue;
            }
            let inp = Input { pts: p.iter().map(|&k| b.pts[k]).collect(), segs: q.iter().map(|&k| b.segs[k]).collect() };
            add(format!("order {p:?} {q:?}"), inp, vec![], vec![]);
        }
    }
    // directions
    let n = b.segs.len();
    let flip = |s: S| [s[2], s[3], s[0], s[1]];
    let masks: Vec<u64> = if n <= 4 { (1..1u64 << n).collect() } else { vec![!0, 0x5555_5555_5555_5555, 0x3333_3333_3333_3333, 1] };
    for m in masks {
        let mut inp = b.clone();
        for i in 0..n {
            if m >> (i % 64) & 1 == 1 {
                inp.segs[i] = flip(inp.segs[i]);
            }
        }
        add(format!("segments flipped: {m:x}"), inp, vec![], vec![]);
    }
    // duplicates
    for i in 0..b.pts.len().min(5) {
        let mut inp = b.clone();
        inp.pts.push(b.pts[i]);
        add(format!("point {i} twice"), inp, vec![], vec![]);
        let mut inp = b.clone();
        inp.segs.insert(0, [b.pts[i][0], b.pts[i][1], b.pts[i][0], b.pts[i][1]]);
        add(format!("point {i} also as a segment"), inp.clone(), vec![], vec![]);
        inp.pts.remove(i);
        add(format!("point {i} as a segment"), inp, vec![], vec![]);
    }
    for i in 0..n.min(4) {
        let s = b.segs[i];
        for (t, u) in [("twice", s), ("in both directions", flip(s))] {
            let mut inp = b.clone();
            inp.segs.push(u);
            add(format!("segment {i} {t}"), inp, vec![], vec![]);
        }
        for (t, p) in [("start", [s[0], s[1]]), ("end", [s[2], s[3]])] {
            let mut inp = b.clone();
            inp.pts.insert(0, p);
            add(format!("{t} of segment {i} also as a point"), inp, vec![], vec![]);
            let mut inp = b.clone();
            inp.segs.push([p[0], p[1], p[0], p[1]]);
            add(format!("{t} of segment {i} also as a segment"), inp, vec![], vec![]);
        }
    }
    let mut inp = b.clone();
    inp.pts.extend(b.pts.clone());
    inp.segs.extend(b.segs.iter().map(|&s| flip(s)));
    add("everything twice".into(), inp.clone(), vec![], vec![]);
    inp.pts.extend(b.pts.clone());
    inp.segs.extend(b.segs.clone());
    add("everything three times".into(), inp.clone(), vec![], vec![]);
    inp.pts.reverse();
    inp.segs.reverse();
    add("everything three times, backwards".into(), inp, vec![], vec![]);
    // every site in every form there is
    let mut inp = b.clone();
    for s in &b.segs {
        inp.pts.extend([[s[0], s[1]], [s[2], s[3]]]);
    }
    for p in inp.pts.clone() {
        inp.segs.push([p[0], p[1], p[0], p[1]]);
    }
    add("all endpoints also as points, all points also as segments".into(), inp.clone(), vec![], vec![]);
    inp.pts.reverse();
    inp.segs.reverse();
    add("all endpoints also as points, all points also as segments, backwards".into(), inp, vec![], vec![]);
    // chunks
    for i in 1..b.pts.len().min(5) {
        add(format!("points in two calls at {i}"), b.clone(), vec![i], vec![]);
    }
    for i in 1..n.min(5) {
        add(format!("segments in two calls at {i}"), b.clone(), vec![], vec![i]);
    }
    add("one call per object".into(), b.clone(), (1..b.pts.len()).collect(), (1..n).collect());
    out
}

/// Build with the given split into calls; `objects` hands over Point/Line values instead of arrays.
fn build_split<I: InputType, F: OutputType>(v: &Var, objects: bool) -> Result<Diagram<F>, String> {
    guard(|| {
        let c = |v: i64| -> I { cast::<i64, I>(v) };
        let mut b = Builder::<I, F>::default();
        let e = |e: BvError| format!("Err({e:?})");
        let cuts = |cut: &[usize], n: usize| -> Vec<(usize, usize)> {
            let mut a: Vec<usize> = vec![0];
            a.extend(cut);
            a.push(n);
            a.windows(2).map(|w| (w[0], w[1])).collect()
        };
        for (i, j) in cuts(&v.pcut, v.inp.pts.len()) {
            let p = &v.inp.pts[i..j];
            b = if objects {
                b.with_vertices(p.iter().map(|p| Point::<I>::new(c(p[0]), c(p[1])))).map_err(e)?
            } else {
                let x: Vec<[I; 2]> = p.iter().map(|p| [c(p[0]), c(p[1])]).collect();
                b.with_vertices(x.iter()).map_err(e)?
            };
        }
        if !v.inp.segs.is_empty() {
            for (i, j) in cuts(&v.scut, v.inp.segs.len()) {
                let s = &v.inp.segs[i..j];
                b = if objects {
                    b.with_segments(s.iter().map(|s| Line::<I>::new(Point::new(c(s[0]), c(s[1])), Point::new(c(s[2]), c(s[3]))))).map_err(e)?
                } else {
                    let x: Vec<[I; 4]> = s.iter().map(|s| [c(s[0]), c(s[1]), c(s[2]), c(s[3])]).collect();
                    b.with_segments(x.iter()).map_err(e)?
                };
            }
        }
        b.build().map_err(e)
    })
}

fn canon_of<I: InputType, F: OutputType>(v: &Var, objects: bool, f32s: bool) -> Result<Canon, String> {
    let d = build_split::<I, F>(v, objects)?;
    let s = guard(|| Ok(Snap::of(&d)))?;
    topo::check(&s)?;
    let ks = keys(&v.inp, &s)?;
    Ok(canon(&ks, &s, f32s))
}

fn p05_one(inp: &Input, full: bool, small: bool, w: &mut Worker) -> Result<(), String> {
    p05_with(inp, variants(inp, full), small, w)
}

fn p05_with(inp: &Input, variants: Vec<Var>, small: bool, w: &mut Worker) -> Result<(), String> {
    let base = Var { name: String::new(), inp: inp.clone(), pcut: vec![], scut: vec![] };
    let want = canon_of::<i32, f64>(&base, false, false)?;
    let mut n = 0;
    for v in variants {
        let got = canon_of::<i32, f64>(&v, n % 2 == 1, false).map_err(|e| format!("{}: {e}", v.name))?;
        if got != want {
            return Err(format!("{}: {}", v.name, want.diff(&got)));
        }
        n += 1;
    }
    for objects in [false, true] {
        let got = canon_of::<i64, f64>(&base, objects, false).map_err(|e| format!("i64: {e}"))?;
        if got != want {
            return Err(format!("64 bit input: {}", want.diff(&got)));
        }
        n += 1;
    }
    if small {
        // f32 output: the f64 result rounded
        let want = {
            let d = build_split::<i32, f64>(&base, false)?;
            let s = Snap::of(&d);
            canon(&keys(inp, &s)?, &s, true)
        };
        let a = canon_of::<i32, f32>(&base, true, true).map_err(|e| format!("f32: {e}"))?;
        let b = canon_of::<i64, f32>(&base, false, true).map_err(|e| format!("i64/f32: {e}"))?;
        for (g, t) in [(a, "i32/f32"), (b, "i64/f32")] {
            if g != want {
                return Err(format!("{t}: {}", want.diff(&g)));
            }
            n += 1;
        }
    }
    w.transitions += n;
    w.traces += n;
    Ok(())
}

/// Bits of an f32 as an integer that is monotone in the value.
fn ord32(v: f64) -> i64 {
    let b = (v as f32 + 0.0).to_bits() as i64;
    if b < 1 << 31 { b } else { (1 << 31) - b }
}

/// Positions in units of the last place of an f32.
fn at32(v: &SVert) -> [i64; 2] {
    [ord32(v.x), ord32(v.y)]
}

/// An edge whose ends are the same, or neighbours, after rounding to f32.
fn tiny32(s: &Snap) -> bool {
    (0..s.edges.len()).any(|e| !longer32(s, e, 1))
}

/// The ends of the edge are more than n units apart.
fn longer32(s: &Snap, e: usize, n: i64) -> bool {
    match (s.edges[e].v0, s.v1(e)) {
        (Some(a), Some(b)) => {
            let (a, b) = (at32(&s.verts[a]), at32(&s.verts[b]));
            (a[0] - b[0]).abs() > n || (a[1] - b[1]).abs() > n
        }
        _ => true,
    }
}

/// The output in f32 is the f64 diagram rounded: the same if all its edges survive rounding, else a well-formed diagram
/// with the same vertices. Returns whether it had to be the same.
fn rounded<I: InputType>(inp: &Input) -> Result<bool, String> {
    let v = Var { name: String::new(), inp: inp.clone(), pcut: vec![], scut: vec![] };
    let d = build_split::<I, f64>(&v, false)?;
    let f = build_split::<I, f32>(&v, false).map_err(|e| format!("f32: {e}"))?;
    let (d, f) = (guard(|| Ok(Snap::of(&d)))?, guard(|| Ok(Snap::of(&f)))?);
    let exact = !tiny32(&d) && !tiny32(&f);
    topo::check_with(&f, !exact).map_err(|e| format!("f32: {e}"))?;
    let (kd, kf) = (keys(inp, &d)?, keys(inp, &f).map_err(|e| format!("f32: {e}"))?);
    if exact {
        let (want, got) = (canon(&kd, &d, true), canon(&kf, &f, true));
        if want != got {
            return Err(format!("f32: {}", want.diff(&got)));
        }
        return Ok(true);
    }
    // every vertex has its counterpart
    let near = |a: &Snap, b: &Snap| -> Option<[f64; 2]> {
        let mut l: Vec<[i64; 2]> = b.verts.iter().map(at32).collect();
        l.sort();
        let there = |p: [i64; 2]| (-1..=1).any(|dx| {
            let i = l.partition_point(|q| *q < [p[0] + dx, p[1] - 1]);
            l.get(i).map_or(false, |q| q[0] == p[0] + dx && q[1] <= p[1] + 1)
        });
        a.verts.iter().find(|v| !there(at32(v))).map(|v| [v.x, v.y])
    };
    if let Some(p) = near(&d, &f) {
        return Err(format!("f32: no vertex at {p:?}"));
    }
    if let Some(p) = near(&f, &d) {
        return Err(format!("f32: a vertex at {p:?}, where f64 has none"));
    }
    // neighbours in f32 are neighbours in f64, but for edges of one unit that f64 takes for none;
    // all edges that can be seen are there
    let pairs = |s: &Snap, k: &[Key], n: i64| -> std::collections::BTreeSet<(Key, Key)> {
        let e = s.edges.iter().filter(|e| longer32(s, e.id, n));
        e.map(|e| (k[e.cell.unwrap()], k[s.edges[e.twin.unwrap()].cell.unwrap()])).collect()
    };
    if let Some(p) = pairs(&f, &kf, 1).difference(&pairs(&d, &kd, -1)).next() {
        return Err(format!("f32: an edge between {p:?}, which are no neighbours in f64"));
    }
    if let Some(p) = pairs(&d, &kd, 2).difference(&pairs(&f, &kf, -1)).next() {
        return Err(format!("f32: no edge between {p:?}"));
    }
    Ok(false)
}

pub fn p05(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("inputs and variants outside the enumerated ones are not covered");
    let far = map(250_000_000, 1_000_000_000, 1_000_000_000, 7);
    let fams: Vec<(Family, Vec<Map>)> = vec![
        (point_subsets(3, 3, 0, 9), vec![ID, far]),
        (point_subsets(4, 4, 2, if q { 4 } else { 6 }), vec![ID]),
        (seg_sets(3, 3, 1, 2, if q { 1 } else { 3 }), vec![ID]),
        (seg_sets(3, 3, 1, 2, 0), vec![map(7, 100003, -70001, 4), far]),
        (seg_sets(3, 3, 3, if q { 3 } else { 5 }, 0), vec![ID]),
        (seg_sets(4, 4, 2, 2, 0), if q { vec![ID] } else { vec![ID, far] }),
        (outlines(1, if q { 4 } else { 6 }), vec![ID]),
        (stars(2, 3, if q { 3 } else { 5 }), vec![ID]),
        (blocks(2, 2, 4), vec![map(1000, 0, 0, 3)]),
        (quilts(5, if q { 7 } else { 13 }), vec![ID, map(1_000_003, 7, -11, 3)]),
        (lattices(30, if q { 13 } else { 31 }), vec![ID]),
        (crate::scale::growing(0..crate::scale::SHAPES, 1, if q { 30 } else { 120 }), vec![ID]),
        (crate::scale::grown_to(0..crate::scale::SHAPES, if q { 257 } else { 1025 }), vec![ID]),
    ];
    for (fam, maps) in fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let mapped = inp.map(|p| m.p(p));
            let small = mapped.pts.iter().flatten().chain(mapped.segs.iter().flatten()).all(|c| c.abs() < 64);
            // distinct points of a lattice only
            let mut mi = mapped.clone();
            mi.pts.sort();
            mi.pts.dedup();
            w.traces += 1;
            if let Err(e) = p05_one(&mi, !q, small, w) {
                ctx.violation(&case_text(inp, m), &e);
            }
        });
    }
    // f32 at any scale
    let m32 = vec![ID, map(1, 1_000_000_000, -1_000_000_000, 3), map(3, 20_000_001, -17_000_000, 1), map(1000, 7, -11, 5), map(1_000_003, 1_000_000, 0, 2)];
    let f32fams: Vec<(Family, Vec<Map>)> = vec![
        (point_subsets(3, 3, 0, 9), m32.clone()),
        (point_subsets(4, 4, 2, if q { 5 } else { 8 }), m32.clone()),
        (seg_sets(3, 3, 1, 3, 1), m32.clone()),
        (seg_sets(4, 4, 1, 2, if q { 0 } else { 1 }), m32.clone()),
        (seg_sets(3, 3, 4, if q { 4 } else { 6 }, 0), m32.clone()),
        (outlines(1, if q { 5 } else { 7 }), m32.clone()),
        (stars(2, 3, if q { 4 } else { 5 }), m32.clone()),
        (blocks(2, 2, 4), m32.clone()),
        (quilts(5, if q { 7 } else { 13 }), m32.clone()),
        (lattices(30, if q { 13 } else { 31 }), m32.clone()),
        (crate::scale::growing(0..crate::scale::SHAPES, 1, if q { 30 } else { 120 }), m32.clone()),
        (crate::scale::grown_to(0..crate::scale::SHAPES, if q { 257 } else { 1025 }), m32.clone()),
    ];
    for (fam, maps) in f32fams {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let mut mi = inp.map(|p| m.p(p));
            mi.pts.sort();
            mi.pts.dedup();
            let small = |v: &i64| v.abs() <= crate::diag::BIG;
            if !mi.pts.iter().flatten().all(small) || !mi.segs.iter().flatten().all(small) {
                return;
            }
            w.traces += 1;
            match rounded::<i32>(&mi) {
                Ok(exact) => w.add(if exact { "f32 diagrams that equal the f64 diagram" } else { "f32 diagrams with edges below the resolution" }, 1),
                Err(e) => ctx.violation(&case_text(inp, m), &e),
            }
        });
    }
    // those variants that concern all objects
    let mut list = crate::scale::giants(false, if q { &[9, 22, 28] } else { &[1, 9, 10, 11, 22, 28] }, 66_000);
    list.extend(crate::scale::giants(false, if q { &[4, 9, 11, 22] } else { &[4, 9, 10, 11, 18, 22, 28] }, 4097));
    crate::scale::explore_giants(ctx, &list, |inp, w| {
        let mut inp = inp.clone();
        inp.pts.sort();
        inp.pts.dedup();
        let all = ["again", "segments flipped", "everything", "all endpoints", "one call"];
        let v = variants(&inp, false).into_iter().filter(|v| all.iter().any(|a| v.name.starts_with(a))).collect();
        p05_with(&inp, v, false, w)
    });
}

// ------------------------------------------------------------------------------------ P06
/// (x, y) -> (a*x - b*y + tx, b*x + a*y + ty), after the mirror image if `mir`.
#[derive(Clone, Copy, Debug)]
struct Sim {
    a: i64,
    b: i64,
    mir: bool,
    tx: i64,
    ty: i64,
}

impl Sim {
    fn p(&self, p: P) -> P {
        let (x, y) = (p[0], if self.mir { -p[1] } else { p[1] });
        [self.a * x - self.b * y + self.tx, self.b * x + self.a * y + self.ty]
    }
    fn undo(&self, x: f64, y: f64) -> (f64, f64) {
        let (x, y) = (x - self.tx as f64, y - self.ty as f64);
        let n = (self.a * self.a + self.b * self.b) as f64;
        let (u, v) = ((self.a as f64 * x + self.b as f64 * y) / n, (self.a as f64 * y - self.b as f64 * x) / n);
        (u, if self.mir { -v } else { v })
    }
    fn scale(&self) -> f64 {
        ((self.a * self.a + self.b * self.b) as f64).sqrt()
    }
}

struct Geo {
    /// (cell, twin cell, v0 cluster, v1 cluster) without edges inside a cluster
    edges: Vec<(Key, Key, Option<usize>, Option<usize>)>,
    centre: Vec<(f64, f64)>,
    site: Vec<bool>,
}

/// Vertices closer than tol are one.
fn geo(ks: &[Key], s: &Snap, tol: f64, mirrored: bool) -> Result<Geo, String> {
    let n = s.verts.len();
    let mut cl: Vec<usize> = (0..n).collect();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|&a, &b| s.verts[a].x.partial_cmp(&s.verts[b].x).unwrap());
    fn root(cl: &mut Vec<usize>, mut i: usize) -> usize {
        while cl[i] != i {
            i = cl[i];
        }
        i
    }
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = (&s.verts[order[i]], &s.verts[order[j]]);
            if b.x - a.x > tol {
                break;
            }
            if (b.y - a.y).abs() <= tol {
                let (x, y) = (root(&mut cl, order[i]), root(&mut cl, order[j]));
                cl[x] = y;
            }
        }
    }
    let mut num: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut centre, mut site) = (Vec::new(), Vec::new());
    let mut of = vec![0; n];
    for i in 0..n {
        let r = root(&mut cl, i);
        let k = *num.entry(r).or_insert_with(|| {
            centre.push((s.verts[r].x, s.verts[r].y));
            site.push(false);
            centre.len() - 1
        });
        site[k] |= s.verts[i].site;
        of[i] = k;
        if (s.verts[i].x - centre[k].0).abs() > 4.0 * tol || (s.verts[i].y - centre[k].1).abs() > 4.0 * tol {
            return Err("unclear".into());
        }
    }
    let mut edges = Vec::new();
    for (i, e) in s.edges.iter().enumerate() {
        let (a, b) = (e.v0.map(|v| of[v]), s.v1(i).map(|v| of[v]));
        if a.is_some() && a == b {
            continue;
        }
        let (a, b) = if mirrored { (b, a) } else { (a, b) };
        edges.push((ks[e.cell.unwrap()], ks[s.edges[e.twin.unwrap()].cell.unwrap()], a, b));
    }
    Ok(Geo { edges, centre, site })
}

fn same(a: &Geo, b: &Geo, tol: f64) -> Result<(), String> {
    if a.centre.len() != b.centre.len() {
        return Err(format!("{} instead of {} distinct vertices", b.centre.len(), a.centre.len()));
    }
    // match the vertices by position
    let mut order: Vec<usize> = (0..a.centre.len()).collect();
    order.sort_by(|&i, &j| a.centre[i].partial_cmp(&a.centre[j]).unwrap());
    let xs: Vec<f64> = order.iter().map(|&i| a.centre[i].0).collect();
    let mut to = Vec::with_capacity(b.centre.len());
    for (k, c) in b.centre.iter().enumerate() {
        let from = xs.partition_point(|x| *x < c.0 - tol);
        let hit = order[from..].iter().copied().take_while(|&i| a.centre[i].0 <= c.0 + tol).find(|&i| (a.centre[i].1 - c.1).abs() <= tol);
        let Some(i) = hit else { return Err(format!("vertex at {c:?} (mapped back) is missing in the diagram of the base input")) };
        if a.site[i] != b.site[k] {
            return Err(format!("vertex at {c:?} (mapped back): is_site_point {} instead of {}", b.site[k], a.site[i]));
        }
        to.push(i);
    }
    let mut ea = a.edges.clone();
    let mut eb: Vec<_> = b.edges.iter().map(|e| (e.0, e.1, e.2.map(|v| to[v]), e.3.map(|v| to[v]))).collect();
    ea.sort();
    eb.sort();
    if ea != eb {
        if let Some(x) = ea.iter().find(|x| eb.binary_search(x).is_err()) {
            return Err(format!("no edge between {:?} and {:?} from {:?} to {:?}", x.0, x.1, x.2.map(|v| a.centre[v]), x.3.map(|v| a.centre[v])));
        }
        if let Some(x) = eb.iter().find(|x| ea.binary_search(x).is_err()) {
            return Err(format!("additional edge between {:?} and {:?} from {:?} to {:?}", x.0, x.1, x.2.map(|v| a.centre[v]), x.3.map(|v| a.centre[v])));
        }
        return Err("different multiplicity of edges".into());
    }
    Ok(())
}

fn snap_of(inp: &Input) -> Result<Snap, String> {
    crate::diag::snap(inp).and_then(|s| topo::check(&s).map(|_| s))
}

/// Keys in base coordinates for the diagram of a mapped input (the objects keep their order).
fn base_keys(base: &Input, mapped: &Input, s: &Snap) -> Result<Vec<Key>, String> {
    keys(mapped, s)?;
    keys(base, s)
}

fn p06_one(inp: &Input, sims: &[Sim], w: &mut Worker) -> Result<(), String> {
    let ext = inp.pts.iter().flatten().chain(inp.segs.iter().flatten()).fold(1.0f64, |m, c| m.max((*c as f64).abs()));
    let tol0 = 1e-9 * ext;
    let s0 = snap_of(inp)?;
    let g0 = geo(&keys(inp, &s0)?, &s0, tol0, false)?;
    for m in sims {
        let mapped = inp.map(|p| m.p(p));
        let mut s = snap_of(&mapped).map_err(|e| format!("{m:?}: {e}"))?;
        // coordinates are exact to about 1e-12 of their magnitude
        let tol = tol0.max(1e-12 * (m.tx.abs().max(m.ty.abs()) as f64) / m.scale());
        for v in s.verts.iter_mut() {
            (v.x, v.y) = m.undo(v.x, v.y);
        }
        let ks = base_keys(inp, &mapped, &s).map_err(|e| format!("{m:?}: {e}"))?;
        let g = geo(&ks, &s, tol, m.mir)?;
        same(&g0, &g, 4.0 * tol).map_err(|e| format!("{m:?}: {e}"))?;
        // the flags of the cells without edges and the kinds of sites do not change
        let deg = |s: &Snap, ks: &[Key]| { let mut v: Vec<Key> = s.cells.iter().filter(|c| c.inc.is_none()).map(|c| ks[c.id]).collect(); v.sort(); v };
        if deg(&s, &ks) != deg(&s0, &keys(inp, &s0)?) {
            return Err(format!("{m:?}: other cells without edges"));
        }
        w.traces += 1;
        w.transitions += 1;
    }
    Ok(())
}

pub fn p06(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("vertices closer than 1e-9 of the extent of the input are taken as one");
    let mut d4: Vec<Sim> = Vec::new();
    for mir in [false, true] {
        for (a, b) in [(1, 0), (0, 1), (-1, 0), (0, -1)] {
            d4.push(Sim { a, b, mir, tx: 0, ty: 0 });
        }
    }
    d4.remove(0);
    let turn = vec![
        Sim { a: 4, b: 3, mir: false, tx: 0, ty: 0 },
        Sim { a: 5, b: -12, mir: true, tx: 1000, ty: -3 },
        Sim { a: 1, b: 1, mir: false, tx: 0, ty: 0 },
        Sim { a: -2, b: 1, mir: true, tx: -7, ty: 13 },
    ];
    let far = vec![
        Sim { a: 1, b: 0, mir: false, tx: -1_000_000, ty: 1_000_003 },
        Sim { a: 1_000_003, b: 0, mir: false, tx: 7, ty: -1_000_000_009 },
        Sim { a: 40_000_000, b: 30_000_000, mir: true, tx: 500_000_000, ty: -500_000_000 },
        Sim { a: 7, b: 24, mir: false, tx: 123_456, ty: -654_321 },
    ];
    let _ = (maps_small(), maps_big());
    let all: Vec<Sim> = d4.iter().chain(&turn).chain(&far).copied().collect();
    let fams: Vec<(Family, Vec<Sim>)> = vec![
        (point_subsets(4, 4, 1, if q { 5 } else { 16 }), all.clone()),
        (seg_sets(3, 3, 1, 2, if q { 2 } else { 4 }), all.clone()),
        (seg_sets(3, 3, 3, if q { 3 } else { 5 }, 0), all.clone()),
        (seg_sets(4, 4, 1, 2, if q { 0 } else { 1 }), all.clone()),
        (seg_sets(4, 4, 3, 3, 0), if q { turn[..1].to_vec() } else { all.clone() }),
        (outlines(1, if q { 5 } else { 7 }), all.clone()),
        (stars(2, 2, if q { 3 } else { 5 }), all.clone()),
        (stars(3, 2, if q { 2 } else { 3 }), all.clone()),
        (blocks(2, 2, 4), all.clone()),
        (quilts(if q { 4 } else { 8 }, if q { 9 } else { 17 }), all.iter().filter(|m| m.scale() < 1e7).copied().collect()),
        (crate::scale::growing(0..crate::scale::SHAPES, 1, if q { 24 } else { 100 }), all.iter().filter(|m| m.scale() < 1e5).copied().collect()),
        (crate::scale::grown_to(0..crate::scale::SHAPES, if q { 257 } else { 513 }), all.iter().filter(|m| m.scale() < 1e5).step_by(3).copied().collect()),
    ];
    for (fam, sims) in fams {
        let t: Vec<String> = sims.iter().map(|m| format!("({}{},{}+{},{})", if m.mir { "mirror " } else { "" }, m.a, m.b, m.tx, m.ty)).collect();
        let fam = Family { name: format!("{} x similarities {}", fam.name, t.join(" ")), ..fam };
        explore(ctx, &fam, &[ID], |inp, m, w| {
            if let Err(e) = p06_one(inp, &sims, w) {
                if e == "unclear" {
                    w.add("unclear_clusters", 1);
                } else {
                    ctx.violation(&case_text(inp, m), &e);
                }
            }
        });
    }
}
