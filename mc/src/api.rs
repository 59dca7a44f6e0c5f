//! P08: queries of a diagram agree with its records, missing ids are errors.
//! P09: SyncDiagram is the same diagram. P11: coloring of exterior edges.
use crate::diag::guard;
use crate::fam::*;
use crate::input::*;
use crate::run::*;
use crate::snap::*;
use boostvoronoi::prelude::*;
use boostvoronoi::{SourceCategory, SyncDiagram};
use std::rc::Rc;

fn ce(i: usize) -> CellIndex {
    CellIndex(i)
}
fn ed(i: usize) -> EdgeIndex {
    EdgeIndex(i)
}
fn ve(i: usize) -> VertexIndex {
    VertexIndex(i)
}

macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {
        let (g, w) = ($got, $want);
        if g != w {
            return Err(format!("{} is {:?}, expected {:?}", $what, g, w));
        }
    };
}

/// Some(x) for Ok, None for an IdError; another error is a failure.
fn id<T>(what: &str, r: Result<T, BvError>) -> Result<Option<T>, String> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(BvError::IdError(_)) => Ok(None),
        Err(e) => Err(format!("{what} returned Err({e:?})")),
    }
}

/// The walk from `e` along `f` until it returns to `e`.
fn walk(e: usize, n: usize, f: impl Fn(usize) -> Option<usize>) -> Vec<usize> {
    let mut out = vec![e];
    let mut x = f(e);
    while let Some(y) = x {
        if y == e || out.len() > n {
            break;
        }
        out.push(y);
        x = f(y);
    }
    out
}

fn take(it: impl Iterator<Item = EdgeIndex>, n: usize) -> Vec<usize> {
    it.take(2 * n + 5).map(|e| e.0).collect()
}

pub fn queries<F: OutputType>(d: &mut Diagram<F>) -> Result<u64, String> {
    let s = Snap::of(d);
    let (nc, nv, ne) = (s.cells.len(), s.verts.len(), s.edges.len());
    let mut n = 0u64;
    let (mut of_cell, mut of_vertex) = (vec![vec![]; nc], vec![vec![]; nv]);
    for e in &s.edges {
        if let Some(l) = e.cell.and_then(|c| of_cell.get_mut(c)) {
            l.push(e.id);
        }
        if let Some(l) = e.v0.and_then(|v| of_vertex.get_mut(v)) {
            l.push(e.id);
        }
    }
    eq!("num_cells", d.num_cells(), nc);
    eq!("num_vertices", d.num_vertices(), nv);
    eq!("num_edges", d.num_edges(), ne);
    #[allow(deprecated)]
    {
        eq!("cell_iter", d.cell_iter().map(|c| scell(&c.get())).collect::<Vec<_>>(), s.cells.clone());
        eq!("vertex_iter", d.vertex_iter().map(|c| svert(&c.get())).collect::<Vec<_>>(), s.verts.clone());
        eq!("edge_iter", d.edge_iter().map(|c| sedge(&c.get())).collect::<Vec<_>>(), s.edges.clone());
    }
    for i in 0..nc {
        let c = id("get_cell", d.get_cell(ce(i)))?.ok_or(format!("get_cell({i}) is an error"))?;
        if !Rc::ptr_eq(&c, &d.cells()[i]) {
            return Err(format!("get_cell({i}) is not cells()[{i}]"));
        }
        let sc = &s.cells[i];
        eq!(format!("id of cell {i}"), sc.id, i);
        eq!(format!("contains_point of cell {i}"), sc.has_point, sc.cat != Cat::Seg);
        eq!(format!("contains_segment of cell {i}"), sc.has_segment, sc.cat == Cat::Seg);
        eq!(format!("contains_segment_startpoint of cell {i}"), sc.is_start, sc.cat == Cat::Start);
        eq!(format!("contains_segment_endpoint of cell {i}"), sc.is_end, sc.cat == Cat::End);
        eq!(format!("is_degenerate of cell {i}"), sc.degenerate, sc.inc.is_none());
        let want = match sc.inc {
            Some(e) => walk(e, ne, |e| s.edges[e].next),
            None => vec![],
        };
        eq!(format!("cell_edge_iterator({i})"), take(d.cell_edge_iterator(ce(i)), ne), want.clone());
        let mut all: Vec<usize> = of_cell[i].clone();
        let mut w = want;
        w.sort();
        all.sort();
        eq!(format!("edges reached by cell_edge_iterator({i})"), w, all);
        n += 7;
        let _ = format!("{:?} {:?}", c.get(), c.get().source_category() == SourceCategory::Segment);
    }
    for i in 0..ne {
        let e = &s.edges[i];
        let c = id("get_edge", d.get_edge(ed(i)))?.ok_or(format!("get_edge({i}) is an error"))?;
        if !Rc::ptr_eq(&c, &d.edges()[i]) {
            return Err(format!("get_edge({i}) is not edges()[{i}]"));
        }
        eq!(format!("id of edge {i}"), e.id, i);
        let v1 = s.v1(i);
        eq!(format!("edge_get_twin({i})"), id("edge_get_twin", d.edge_get_twin(ed(i)))?.map(|x| x.0), e.twin);
        eq!(format!("edge_get_next({i})"), id("edge_get_next", d.edge_get_next(ed(i)))?.map(|x| x.0), e.next);
        eq!(format!("edge_get_cell({i})"), id("edge_get_cell", d.edge_get_cell(ed(i)))?.map(|x| x.0), e.cell);
        eq!(format!("edge_get_vertex0({i})"), id("edge_get_vertex0", d.edge_get_vertex0(ed(i)))?.map(|v| v.map(|x| x.0)), Some(e.v0));
        eq!(format!("edge_get_vertex1({i})"), id("edge_get_vertex1", d.edge_get_vertex1(ed(i)))?.map(|v| v.map(|x| x.0)), Some(v1));
        let fin = e.v0.is_some() && v1.is_some();
        eq!(format!("edge_is_finite({i})"), id("edge_is_finite", d.edge_is_finite(ed(i)))?, Some(fin));
        eq!(format!("edge_is_infinite({i})"), id("edge_is_infinite", d.edge_is_infinite(ed(i)))?, Some(!fin));
        eq!(format!("edge_get_color({i})"), id("edge_get_color", d.edge_get_color(ed(i)))?, Some(e.color));
        eq!(format!("is_curved of edge {i}"), e.curved, !e.linear);
        eq!(format!("is_secondary of edge {i}"), e.secondary, !e.primary);
        let line = if fin {
            let (a, b) = (&s.verts[e.v0.unwrap()], &s.verts[v1.unwrap()]);
            Some([a.x, a.y, b.x, b.y])
        } else {
            None
        };
        eq!(format!("edge_as_line({i})"), id("edge_as_line", d.edge_as_line(ed(i)))?.map(|l| l.map(|c| c.to_f64().unwrap())), line);
        let rn = |e: usize| s.edges[e].prev.and_then(|p| s.edges[p].twin);
        let rp = |e: usize| s.edges[e].twin.and_then(|p| s.edges[p].next);
        eq!(format!("edge_rot_next({i})"), id("edge_rot_next", d.edge_rot_next(ed(i)))?.map(|x| x.0), rn(i));
        eq!(format!("edge_rot_prev({i})"), d.edge_rot_prev(Some(ed(i))).map(|x| x.0), rp(i));
        // the edges that come from infinity may be one long chain
        if ne < 20_000 || i % 9973 == 0 || e.v0.map_or(false, |v| of_vertex[v].len() < 1000) {
            eq!(format!("edge_rot_next_iterator({i})"), take(d.edge_rot_next_iterator(Some(ed(i))), ne), walk(i, ne, rn));
            eq!(format!("edge_rot_prev_iterator({i})"), take(d.edge_rot_prev_iterator(Some(ed(i))), ne), walk(i, ne, rp));
        }
        if let Some(v0) = e.v0 {
            let mut a = take(d.edge_rot_next_iterator(Some(ed(i))), ne);
            a.sort();
            let b: Vec<usize> = of_vertex[v0].clone();
            eq!(format!("edges reached by edge_rot_next_iterator({i})"), a, b.clone());
            let mut a = take(d.edge_rot_prev_iterator(Some(ed(i))), ne);
            a.sort();
            eq!(format!("edges reached by edge_rot_prev_iterator({i})"), a, b);
        }
        n += 16;
        let _ = format!("{:?}", c.get());
    }
    let (mut lo, mut hi) = ([f64::INFINITY; 2], [f64::NEG_INFINITY; 2]);
    for i in 0..nv {
        let v = &s.verts[i];
        let c = id("vertex_get", d.vertex_get(ve(i)))?.ok_or(format!("vertex_get({i}) is an error"))?;
        if !Rc::ptr_eq(c, &d.vertices()[i]) {
            return Err(format!("vertex_get({i}) is not vertices()[{i}]"));
        }
        eq!(format!("id of vertex {i}"), v.id, i);
        eq!(format!("vertex_get_incident_edge({i})"), d.vertex_get_incident_edge(Some(ve(i))).map(|x| x.0), v.inc);
        eq!(format!("vertex_get_color({i})"), d.vertex_get_color(Some(ve(i))), Some(v.color));
        eq!(format!("vertex_is_site_point({i})"), id("vertex_is_site_point", d.vertex_is_site_point(ve(i)))?, Some(v.site));
        for (k, c) in [v.x, v.y].into_iter().enumerate() {
            lo[k] = lo[k].min(c);
            hi[k] = hi[k].max(c);
        }
        n += 4;
        let _ = format!("{:?}", c.get());
    }
    let bb = d.vertices_get_aabb::<i32>();
    let f = |p: Option<[F; 2]>| p.map(|p| p.map(|c| c.to_f64().unwrap()));
    eq!("vertices_get_aabb().get_low()", f(bb.get_low()), if nv > 0 { Some(lo) } else { None });
    eq!("vertices_get_aabb().get_high()", f(bb.get_high()), if nv > 0 { Some(hi) } else { None });
    // None
    eq!("edge_rot_prev(None)", d.edge_rot_prev(None), None);
    eq!("edge_rot_next_iterator(None)", take(d.edge_rot_next_iterator(None), ne), Vec::<usize>::new());
    eq!("edge_rot_prev_iterator(None)", take(d.edge_rot_prev_iterator(None), ne), Vec::<usize>::new());
    eq!("vertex_get_color(None)", d.vertex_get_color(None), None);
    eq!("vertex_get_incident_edge(None)", d.vertex_get_incident_edge(None), None);
    // ids that do not exist
    for k in [0, 1, 1000] {
        missing(d, nc + k, nv + k, ne + k)?;
        n += 24;
    }
    missing(d, usize::MAX, usize::MAX, usize::MAX)?;
    eq!("the diagram after operations on missing ids", Snap::of(d), s);
    d.clear();
    eq!("num_cells after clear()", (d.num_cells(), d.num_vertices(), d.num_edges()), (0, 0, 0));
    missing(d, 0, 0, 0)?;
    Ok(n)
}

fn missing<F: OutputType>(d: &Diagram<F>, c: usize, v: usize, e: usize) -> Result<(), String> {
    macro_rules! no {
        ($f:ident, $r:expr) => {
            if let Some(x) = id(stringify!($f), $r)? {
                let _ = x;
                return Err(format!("{} of an id that does not exist ({c} {v} {e}) is Ok", stringify!($f)));
            }
        };
    }
    no!(get_cell, d.get_cell(ce(c)));
    no!(get_edge, d.get_edge(ed(e)));
    no!(vertex_get, d.vertex_get(ve(v)).map(|_| ()));
    no!(edge_get_twin, d.edge_get_twin(ed(e)));
    no!(edge_get_next, d.edge_get_next(ed(e)));
    no!(edge_get_cell, d.edge_get_cell(ed(e)));
    no!(edge_get_vertex0, d.edge_get_vertex0(ed(e)));
    no!(edge_get_vertex1, d.edge_get_vertex1(ed(e)));
    no!(edge_is_finite, d.edge_is_finite(ed(e)));
    no!(edge_is_infinite, d.edge_is_infinite(ed(e)));
    no!(edge_get_color, d.edge_get_color(ed(e)));
    no!(edge_set_color, d.edge_set_color(ed(e), 5));
    no!(edge_or_color, d.edge_or_color(ed(e), 5));
    no!(edge_as_line, d.edge_as_line(ed(e)));
    no!(edge_rot_next, d.edge_rot_next(ed(e)));
    no!(vertex_is_site_point, d.vertex_is_site_point(ve(v)));
    no!(vertex_set_color, d.vertex_set_color(ve(v), 5));
    d.vertex_or_color(ve(v), 5);
    eq!("edge_rot_prev of a missing edge", d.edge_rot_prev(Some(ed(e))), None);
    eq!("vertex_get_color of a missing vertex", d.vertex_get_color(Some(ve(v))), None);
    eq!("vertex_get_incident_edge of a missing vertex", d.vertex_get_incident_edge(Some(ve(v))), None);
    eq!("cell_edge_iterator of a missing cell", take(d.cell_edge_iterator(ce(c)), 3), Vec::<usize>::new());
    if take(d.edge_rot_next_iterator(Some(ed(e))), 0).len() > 1 || take(d.edge_rot_prev_iterator(Some(ed(e))), 0).len() > 1 {
        return Err("the rotation iterator of a missing edge yields more edges".into());
    }
    Ok(())
}

fn fams(q: bool) -> Vec<(Family, Vec<Map>)> {
    let odd = map(7, 100003, -70001, 4);
    let mut v = vec![
        (point_subsets(3, 3, 0, 9), vec![ID, odd]),
        (point_subsets(4, 4, 2, if q { 6 } else { 16 }), vec![ID]),
        (seg_sets(3, 3, 1, 2, if q { 3 } else { 4 }), vec![ID, odd]),
        (seg_sets(3, 3, 3, if q { 4 } else { 5 }, if q { 0 } else { 1 }), vec![ID]),
        (seg_sets(4, 4, 1, 2, 1), vec![ID]),
        (outlines(1, if q { 6 } else { 8 }), vec![ID]),
        (stars(2, 1, if q { 4 } else { 6 }), vec![ID]),
        (blocks(2, 2, 4), vec![ID]),
        (quilts(5, if q { 7 } else { 13 }), vec![ID]),
        (lattices(20, if q { 8 } else { 20 }), vec![ID]),
        (crate::scale::growing(0..crate::scale::SHAPES, 1, if q { 40 } else { 150 }), vec![ID]),
        (crate::scale::grown_to(0..crate::scale::SHAPES, if q { 513 } else { 1025 }), vec![ID]),
    ];
    if !q {
        v.push((seg_sets(4, 4, 3, 3, 0), vec![ID]));
    }
    v
}

/// Diagrams of more than 2^16 records of each kind, a cell with many edges, a vertex with many edges.
fn giants(ctx: &Ctx) -> Vec<(String, Input)> {
    let mut v = crate::scale::giants(false, if ctx.quick() { &[4, 9, 22, 25] } else { &[1, 4, 5, 9, 10, 11, 22, 25, 28] }, 66_000);
    v.extend(crate::scale::giants(false, &[4, 11, 18], 1500));
    for r2 in [5525i64, 160_225] {
        v.push((format!("giant: all integer points with x^2+y^2 = {r2}"), Input { pts: circle(r2), segs: vec![] }));
    }
    v
}

fn run(ctx: &Ctx, f: impl Fn(&Input) -> Result<u64, String> + Sync) {
    for (fam, maps) in fams(ctx.quick()) {
        explore(ctx, &fam, &maps, |inp, m, w| {
            let mapped = inp.map(|p| m.p(p));
            w.traces += 1;
            match guard(|| f(&mapped)) {
                Ok(n) => w.transitions += n,
                Err(e) => ctx.violation(&case_text(inp, m), &e),
            }
        });
    }
}

pub fn p08(ctx: &Ctx) {
    run(ctx, |inp| {
        let mut n = 0;
        n += queries(&mut build::<i32, f64>(inp)?)?;
        let small = inp.pts.iter().flatten().chain(inp.segs.iter().flatten()).all(|c| c.abs() < 64);
        if small {
            n += queries(&mut build::<i64, f32>(inp)?).map_err(|e| format!("i64/f32: {e}"))?;
        }
        Ok(n)
    });
    crate::scale::explore_giants(ctx, &giants(ctx), |inp, _| guard(|| queries(&mut build::<i32, f64>(inp)?)).map(|_| ()));
}

// ------------------------------------------------------------------------------------ P09
/// Whether T is Send and Sync, decided without a compile error if it is not.
struct Is<T>(std::marker::PhantomData<T>);
trait No {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T> No for Is<T> {}
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T> No for IsSync<T> {}
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}
impl<T: Send> Is<T> {
    const SEND: bool = true;
}

fn paint(i: usize) -> u32 {
    ((i * 2_654_435) as u32 ^ 5) & ((1 << 27) - 1)
}

fn p09_one(inp: &Input) -> Result<u64, String> {
    let d = build::<i32, f64>(inp)?;
    let (nc, nv, ne) = (d.num_cells(), d.num_vertices(), d.num_edges());
    for i in 0..ne {
        d.edge_set_color(ed(i), paint(i)).map_err(|e| format!("{e:?}"))?;
    }
    for i in 0..nv {
        d.vertex_set_color(ve(i), paint(i + 7)).map_err(|e| format!("{e:?}"))?;
    }
    let s = Snap::of(&d);
    let cells: Vec<Cell> = d.cells().iter().map(|c| c.get()).collect();
    let verts: Vec<Vertex<f64>> = d.vertices().iter().map(|c| c.get()).collect();
    let edges: Vec<Edge> = d.edges().iter().map(|c| c.get()).collect();
    let by_new = SyncDiagram::new(cells, verts, edges);
    let mut sd: SyncDiagram<f64> = d.into();
    eq!("SyncDiagram::new of the records", Snap::of_sync(&by_new), s.clone());
    eq!("SyncDiagram::from", Snap::of_sync(&sd), s.clone());
    let mut n = 2;
    for i in 0..nc {
        let c = id("cell_get", sd.cell_get(ce(i)))?.map(scell);
        eq!(format!("cell_get({i})"), c, Some(s.cells[i].clone()));
        n += 1;
    }
    for i in 0..nv {
        eq!(format!("vertex_get({i})"), id("vertex_get", sd.vertex_get(ve(i)))?.map(svert), Some(s.verts[i].clone()));
        eq!(format!("vertex_get_mut({i})"), id("vertex_get_mut", sd.vertex_get_mut(ve(i)))?.map(|v| svert(v)), Some(s.verts[i].clone()));
        n += 2;
    }
    for i in 0..ne {
        let e = &s.edges[i];
        eq!(format!("edge_get({i})"), id("edge_get", sd.edge_get(ed(i)))?.map(sedge), Some(e.clone()));
        eq!(format!("edge_get_mut({i})"), id("edge_get_mut", sd.edge_get_mut(ed(i)))?.map(|e| sedge(e)), Some(e.clone()));
        let ok = |what: &str, r: Result<EdgeIndex, BvError>| r.map(|e| Some(e.0)).map_err(|e| format!("{what}({i}) returned {e:?}"));
        eq!(format!("edge_get_next({i})"), ok("edge_get_next", sd.edge_get_next(ed(i)))?, e.next);
        eq!(format!("edge_get_prev({i})"), ok("edge_get_prev", sd.edge_get_prev(ed(i)))?, e.prev);
        eq!(format!("edge_get_twin({i})"), ok("edge_get_twin", sd.edge_get_twin(ed(i)))?, e.twin);
        let rn = |e: usize| s.edges[e].prev.and_then(|p| s.edges[p].twin);
        let rp = |e: usize| s.edges[e].twin.and_then(|p| s.edges[p].next);
        eq!(format!("edge_rot_next({i})"), ok("edge_rot_next", sd.edge_rot_next(ed(i)))?, rn(i));
        eq!(format!("edge_rot_prev({i})"), ok("edge_rot_prev", sd.edge_rot_prev(ed(i)))?, rp(i));
        if ne < 20_000 || i % 9973 == 0 || e.v0.is_some() {
            eq!(format!("edge_rot_next_iterator({i})"), take(sd.edge_rot_next_iterator(ed(i)), ne), walk(i, ne, rn));
        }
        eq!(format!("edge_get_vertex0({i})"), id("edge_get_vertex0", sd.edge_get_vertex0(ed(i)))?.map(|v| v.map(|v| v.0)), Some(e.v0));
        eq!(format!("edge_get_vertex1({i})"), id("edge_get_vertex1", sd.edge_get_vertex1(ed(i)))?.map(|v| v.map(|v| v.0)), Some(s.v1(i)));
        let fin = e.v0.is_some() && s.v1(i).is_some();
        eq!(format!("edge_is_finite({i})"), id("edge_is_finite", sd.edge_is_finite(ed(i)))?, Some(fin));
        eq!(format!("edge_is_infinite({i})"), id("edge_is_infinite", sd.edge_is_infinite(ed(i)))?, Some(!fin));
        n += 12;
    }
    for k in [0, 1, 1000] {
        sync_missing(&mut sd, nc + k, nv + k, ne + k)?;
    }
    sync_missing(&mut sd, usize::MAX, usize::MAX, usize::MAX)?;
    eq!("the SyncDiagram after operations on missing ids", Snap::of_sync(&sd), s.clone());
    // serde
    let v = serde_json::to_value(&sd).map_err(|e| format!("serialize: {e}"))?;
    let back: SyncDiagram<f64> = serde_json::from_value(v.clone()).map_err(|e| format!("deserialize: {e}"))?;
    eq!("the deserialized SyncDiagram", Snap::of_sync(&back), s.clone());
    eq!("the value serialized again", serde_json::to_value(&back).map_err(|e| format!("serialize: {e}"))?, v);
    // read by several threads at once
    if !<IsSync<SyncDiagram<f64>>>::SYNC || !<Is<SyncDiagram<f64>>>::SEND {
        return Err("SyncDiagram is not Send + Sync".into());
    }
    Ok(n + 5)
}

fn sync_missing(d: &mut SyncDiagram<f64>, c: usize, v: usize, e: usize) -> Result<(), String> {
    macro_rules! no {
        ($f:ident, $r:expr) => {
            if let Some(x) = id(stringify!($f), $r)? {
                let _ = x;
                return Err(format!("SyncDiagram::{} of an id that does not exist ({c} {v} {e}) is Ok", stringify!($f)));
            }
        };
    }
    no!(cell_get, d.cell_get(ce(c)).map(|_| ()));
    no!(vertex_get, d.vertex_get(ve(v)).map(|_| ()));
    no!(vertex_get_mut, d.vertex_get_mut(ve(v)).map(|_| ()));
    no!(edge_get, d.edge_get(ed(e)).map(|_| ()));
    no!(edge_get_mut, d.edge_get_mut(ed(e)).map(|_| ()));
    no!(edge_get_next, d.edge_get_next(ed(e)));
    no!(edge_get_prev, d.edge_get_prev(ed(e)));
    no!(edge_get_twin, d.edge_get_twin(ed(e)));
    no!(edge_get_vertex0, d.edge_get_vertex0(ed(e)));
    no!(edge_get_vertex1, d.edge_get_vertex1(ed(e)));
    no!(edge_is_finite, d.edge_is_finite(ed(e)));
    no!(edge_is_infinite, d.edge_is_infinite(ed(e)));
    no!(edge_rot_next, d.edge_rot_next(ed(e)));
    no!(edge_rot_prev, d.edge_rot_prev(ed(e)));
    Ok(())
}

pub fn p09(ctx: &Ctx) {
    ctx.assume("serialization through serde_json values");
    run(ctx, |inp| p09_one(inp));
    crate::scale::explore_giants(ctx, &giants(ctx), |inp, _| guard(|| p09_one(inp)).map(|_| ()));
}

// ------------------------------------------------------------------------------------ P11
/// The exterior by its definition: the vertices reached from infinity along primary edges without
/// passing a site point; exterior edges are the infinite ones and those leaving such a vertex.
fn exterior(s: &Snap) -> (Vec<bool>, Vec<bool>) {
    let mut vs = vec![false; s.verts.len()];
    let mut es = vec![false; s.edges.len()];
    let mut leaving: Vec<Vec<usize>> = vec![vec![]; s.verts.len()];
    for e in &s.edges {
        if let Some(v) = e.v0 {
            leaving[v].push(e.id);
        }
    }
    let mut todo = Vec::new();
    let start = |v: Option<usize>, e: &SEdge, vs: &mut Vec<bool>, todo: &mut Vec<usize>| {
        if let Some(v) = v {
            if e.primary && !s.verts[v].site && !vs[v] {
                vs[v] = true;
                todo.push(v);
            }
        }
    };
    for e in &s.edges {
        if e.v0.is_none() || s.v1(e.id).is_none() {
            es[e.id] = true;
            es[e.twin.unwrap()] = true;
            if e.v0.is_none() {
                start(s.v1(e.id), e, &mut vs, &mut todo);
            }
        }
    }
    while let Some(v) = todo.pop() {
        for &i in &leaving[v] {
            let e = &s.edges[i];
            es[i] = true;
            es[e.twin.unwrap()] = true;
            start(s.v1(i), e, &mut vs, &mut todo);
        }
    }
    (vs, es)
}

/// Color `d`, whose edges may have other colors already, and compare with the definition.
fn color_and_compare(d: &Diagram<f64>, color: u32, rounds: usize) -> Result<(), String> {
    let mut want = Snap::of(d);
    let (vs, es) = exterior(&want);
    for (v, x) in want.verts.iter_mut().zip(vs) {
        v.color = if x { color } else { 0 };
    }
    for (e, x) in want.edges.iter_mut().zip(es) {
        e.color |= if x { color } else { 0 };
    }
    for round in 0..rounds {
        d.color_exterior_edges(color);
        let got = Snap::of(d);
        for (e, g) in want.edges.iter().zip(&got.edges) {
            if e != g {
                return Err(format!("color {color}, call {round}: edge {g:?} should be {e:?}"));
            }
        }
        for (e, g) in want.verts.iter().zip(&got.verts) {
            if e != g {
                return Err(format!("color {color}, call {round}: vertex {g:?} should be {e:?}"));
            }
        }
        eq!("cells", &got.cells, &want.cells);
    }
    Ok(())
}

fn p11_one(inp: &Input) -> Result<u64, String> {
    let colors = [1u32, 1 << 26, 5, (1 << 27) - 1];
    let k = if inp.segs.len() + inp.pts.len() > 6 { 1 } else { 4 };
    for &color in &colors[..k] {
        color_and_compare(&build::<i32, f64>(inp)?, color, 2)?;
    }
    // some edges have another color already
    let d = build::<i32, f64>(inp)?;
    for i in (0..d.num_edges()).step_by(3) {
        d.edge_set_color(ed(i), 1 << 10 | (i as u32 & 7)).map_err(|e| format!("{e:?}"))?;
    }
    color_and_compare(&d, 1 << 12, 1)?;
    Ok(k as u64 + 1)
}

/// An n*n grid of points in some disorder, colored in a thread with a small stack: the path from
/// infinity to the innermost edge is long.
fn p11_large(n: i64, spread: i64) -> Result<u64, String> {
    let mut inp = Input::default();
    for i in 0..n {
        for j in 0..n {
            let h = (i * 7919 + j * 104_729) % 7;
            inp.pts.push([i * spread + h, j * spread + (h * 3) % 5]);
        }
    }
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, || guard(|| color_and_compare(&build::<i32, f64>(&inp)?, 1, 1).map(|_| 1)))
            .unwrap()
            .join()
            .unwrap_or(Err("panic".into()))
    })
}

pub fn p11(ctx: &Ctx) {
    ctx.assume("vertices are not colored before the call, edges in other bits only; colors 1, 5, 2^12, 2^26 and 2^27-1");
    run(ctx, p11_one);
    let large: Vec<(i64, i64)> = (1..=if ctx.quick() { 6 } else { 12 }).flat_map(|k| [(k * 50, 10), (k * 50, 1000)]).collect();
    ctx.explore("grids of (50k)^2 displaced points in a thread with 1 MB of stack", large.len(), |c, w| {
        let (n, spread) = large[c];
        let case = format!("grid {n} {spread}");
        if w.begin(|| case.clone()) {
            w.states += 1;
            w.traces += 1;
            if let Err(e) = p11_large(n, spread) {
                ctx.violation(&case, &e);
            }
            w.end();
        }
    });
}
