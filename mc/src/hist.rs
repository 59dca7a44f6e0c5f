//! P07: histories of builder calls. P10: histories of color operations.
use crate::diag::guard;
use crate::fam::*;
use crate::input::*;
use crate::invar::{canon, keys, Canon, Key};
use crate::run::*;
use crate::snap::*;
use crate::topo;
use boostvoronoi::prelude::*;
use boostvoronoi::SyncDiagram;
use std::collections::HashMap;
use std::sync::Mutex;

// ------------------------------------------------------------------------------------ P07
#[derive(Clone, Debug)]
enum Op {
    V(Vec<P>),
    S(Vec<S>),
}

impl Op {
    fn text(&self) -> String {
        match self {
            Op::V(v) => format!("V{v:?}").replace(' ', ""),
            Op::S(v) => format!("S{v:?}").replace(' ', ""),
        }
    }
}

fn parse_ops(ops: &[Op], case: &str) -> Option<Vec<usize>> {
    case.split_whitespace().skip(1).map(|t| ops.iter().position(|o| o.text() == t)).collect()
}

enum Outcome<F: OutputType> {
    Built(Diagram<F>),
    VerticesGoesFirst(usize),
    Other(String),
}

fn run_ops<I: InputType, F: OutputType>(ops: &[Op], hist: &[usize], objects: bool) -> Result<Outcome<F>, String> {
    guard(|| {
        let c = |v: i64| -> I { cast::<i64, I>(v) };
        let mut b = Builder::<I, F>::default();
        for (k, &o) in hist.iter().enumerate() {
            let r = match &ops[o] {
                Op::V(v) => {
                    if objects {
                        b.with_vertices(v.iter().map(|p| Point::<I>::new(c(p[0]), c(p[1]))))
                    } else {
                        let x: Vec<[I; 2]> = v.iter().map(|p| [c(p[0]), c(p[1])]).collect();
                        b.with_vertices(x.iter())
                    }
                }
                Op::S(v) => {
                    if objects {
                        b.with_segments(v.iter().map(|s| Line::<I>::new(Point::new(c(s[0]), c(s[1])), Point::new(c(s[2]), c(s[3])))))
                    } else {
                        let x: Vec<[I; 4]> = v.iter().map(|s| [c(s[0]), c(s[1]), c(s[2]), c(s[3])]).collect();
                        b.with_segments(x.iter())
                    }
                }
            };
            b = match r {
                Ok(b) => b,
                Err(BvError::VerticesGoesFirst(_)) => return Ok(Outcome::VerticesGoesFirst(k)),
                Err(e) => return Ok(Outcome::Other(format!("call {k} returned Err({e:?})"))),
            };
        }
        match b.build() {
            Ok(d) => Ok(Outcome::Built(d)),
            Err(e) => Ok(Outcome::Other(format!("build() returned Err({e:?})"))),
        }
    })
}

type Cache = Mutex<HashMap<Vec<Key>, std::sync::Arc<Canon>>>;

fn p07_one(ops: &[Op], hist: &[usize], cache: &Cache) -> Result<bool, String> {
    // model
    let mut inp = Input::default();
    let mut segments_added = false;
    let mut err = None;
    for (k, &o) in hist.iter().enumerate() {
        match &ops[o] {
            Op::V(_) if segments_added => {
                err = Some(k);
                break;
            }
            Op::V(v) => inp.pts.extend(v),
            Op::S(v) => {
                segments_added = true;
                inp.segs.extend(v);
            }
        }
    }
    let check = |s: Snap, tag: &str| -> Result<Canon, String> {
        topo::check(&s).map_err(|e| format!("{tag}: {e}"))?;
        let ks = keys(&inp, &s).map_err(|e| format!("{tag}: {e}"))?;
        Ok(canon(&ks, &s, false))
    };
    let mut got: Vec<(&str, Canon)> = Vec::new();
    macro_rules! go {
        ($i:ty, $tag:expr, $obj:expr) => {
            match run_ops::<$i, f64>(ops, hist, $obj).map_err(|e| format!("{}: {e}", $tag))? {
                Outcome::Built(d) => {
                    if let Some(k) = err {
                        return Err(format!("{}: call {k} adds vertices after segments and is accepted", $tag));
                    }
                    got.push(($tag, check(Snap::of(&d), $tag)?));
                }
                Outcome::VerticesGoesFirst(k) => {
                    if err != Some(k) {
                        return Err(format!("{}: call {k} returned VerticesGoesFirst", $tag));
                    }
                }
                Outcome::Other(e) => return Err(format!("{}: {e}", $tag)),
            }
        };
    }
    go!(i32, "i32", false);
    go!(i64, "i64 objects", true);
    if err.is_some() {
        return Ok(false);
    }
    // one-shot reference, from the set of sites
    let mut one = inp.clone();
    one.pts.extend(one.segs.iter().filter(|s| s[0] == s[2] && s[1] == s[3]).map(|s| [s[0], s[1]]));
    one.segs.retain(|s| s[0] != s[2] || s[1] != s[3]);
    one.pts.sort();
    one.pts.dedup();
    one.segs = one.segs.iter().map(|s| { let (a, b) = ([s[0], s[1]], [s[2], s[3]]); let (a, b) = (a.min(b), a.max(b)); [a[0], a[1], b[0], b[1]] }).collect();
    one.segs.sort();
    one.segs.dedup();
    let key: Vec<Key> = one.pts.iter().map(|p| (false, *p, *p)).chain(one.segs.iter().map(|s| (true, [s[0], s[1]], [s[2], s[3]]))).collect();
    let hit = cache.lock().unwrap().get(&key).cloned();
    let want = match hit {
        Some(c) => c,
        None => {
            let s = build::<i32, f64>(&one).map(|d| Snap::of(&d)).map_err(|e| format!("one call: {e}"))?;
            let ks = keys(&one, &s).map_err(|e| format!("one call: {e}"))?;
            let c = std::sync::Arc::new(canon(&ks, &s, false));
            cache.lock().unwrap().insert(key, c.clone());
            c
        }
    };
    for (t, g) in &got {
        if *g != *want {
            return Err(format!("{t}: {}", want.diff(g)));
        }
    }
    Ok(true)
}

pub fn p07(ctx: &Ctx) {
    let sets: Vec<(&str, Vec<Op>)> = vec![
        (
            "apart",
            vec![
                Op::V(vec![]),
                Op::V(vec![[0, 0]]),
                Op::V(vec![[3, 1], [1, 4]]),
                Op::S(vec![]),
                Op::S(vec![[5, 0, 5, 3]]),
                Op::S(vec![[8, 1, 5, 3]]),
                Op::S(vec![[2, 2, 2, 2]]),
            ],
        ),
        (
            "touching",
            vec![
                Op::V(vec![]),
                Op::V(vec![[2, 1], [0, 0]]),
                Op::V(vec![[0, 0]]),
                Op::S(vec![]),
                Op::S(vec![[0, 0, 0, 3], [0, 3, 0, 0]]),
                Op::S(vec![[0, 3, 4, 5], [4, 5, 4, 5]]),
                Op::S(vec![[4, 5, 4, 1]]),
                Op::S(vec![[0, 0, -3, 0], [0, 3, -2, 1]]),
            ],
        ),
    ];
    let depth = if ctx.quick() { 6 } else { 8 };
    for (name, ops) in &sets {
        if let Some(o) = &ctx.only {
            let mut it = o.split_whitespace();
            if it.next() != Some(name) {
                continue;
            }
            if let Some(h) = parse_ops(ops, o) {
                let cache = Mutex::new(HashMap::new());
                if let Err(e) = p07_one(ops, &h, &cache) {
                    ctx.violation(o, &e);
                }
            }
            continue;
        }
        let n = ops.len();
        let cache: Cache = Mutex::new(HashMap::new());
        // chunk = first two calls
        let text: Vec<String> = ops.iter().map(|o| o.text()).collect();
        ctx.explore(&format!("all histories of up to {depth} calls out of {}, then build", text.join(" ")), n * n, |c, w| {
            let mut stack: Vec<Vec<usize>> = Vec::new();
            if c == 0 {
                stack.push(vec![]);
                for i in 0..n {
                    stack.push(vec![i]);
                }
            }
            stack.push(vec![c / n, c % n]);
            while let Some(h) = stack.pop() {
                let case = format!("{name} {}", h.iter().map(|&i| text[i].clone()).collect::<Vec<_>>().join(" ")).trim().to_string();
                if w.ctx.stopped() || !w.begin(|| case.clone()) {
                    continue;
                }
                w.states += 1;
                w.transitions += 1;
                w.traces += 2;
                match p07_one(ops, &h, &cache) {
                    Ok(go_on) => {
                        if !go_on {
                            w.add("rejected_histories", 1);
                        }
                        // a rejected builder is consumed: no call can follow
                        if go_on && h.len() >= 2 && h.len() < depth {
                            for i in 0..n {
                                let mut g = h.clone();
                                g.push(i);
                                stack.push(g);
                            }
                        }
                    }
                    Err(e) => ctx.violation(&case, &e),
                }
                w.end();
            }
        });
        ctx.add("distinct_site_sets", cache.lock().unwrap().len() as u64);
    }
    long_histories(ctx);
    ctx.sample("apart V[[0,0]] V[] S[[5,0,5,3]] S[]".into());
    ctx.assume("histories longer than the bound and other call contents are not covered");
}

const WAYS: [&str; 6] = [
    "one call",
    "one object per call",
    "calls with 1, 2, 3, 0, 1, 2, 3, 0... objects",
    "each object three times",
    "every third point as a segment, segments in turned direction twice",
    "one object per call, then a point",
];

/// The objects of `inp`, handed over in way `k`.
fn way(inp: &Input, k: usize) -> Vec<Op> {
    let mut h: Vec<Op> = Vec::new();
    match k {
        0 => h.extend([Op::V(inp.pts.clone()), Op::S(inp.segs.clone())]),
        1 | 5 => {
            h.extend(inp.pts.iter().map(|p| Op::V(vec![*p])));
            h.extend(inp.segs.iter().map(|s| Op::S(vec![*s])));
            if k == 5 {
                h.extend([Op::S(vec![]), Op::V(vec![[0, 0]])]);
            }
        }
        2 => {
            let (mut i, mut n) = (0, 1);
            while i < inp.pts.len() {
                let j = (i + n).min(inp.pts.len());
                h.push(Op::V(inp.pts[i..j].to_vec()));
                i = j;
                n = (n + 1) % 4;
            }
            let (mut i, mut n) = (0, 0);
            while i < inp.segs.len() {
                let j = (i + n).min(inp.segs.len());
                h.push(Op::S(inp.segs[i..j].to_vec()));
                i = j;
                n = (n + 1) % 4;
            }
        }
        3 => {
            h.extend((0..3).map(|_| Op::V(inp.pts.clone())));
            h.extend((0..3).map(|_| Op::S(inp.segs.clone())));
        }
        _ => {
            h.push(Op::V(inp.pts.iter().enumerate().filter(|(i, _)| i % 3 != 0).map(|(_, p)| *p).collect()));
            let mut s: Vec<S> = Vec::new();
            for p in inp.pts.iter().step_by(3) {
                s.push([p[0], p[1], p[0], p[1]]);
            }
            for a in &inp.segs {
                s.extend([*a, [a[2], a[3], a[0], a[1]], *a]);
            }
            h.push(Op::S(s));
        }
    }
    h
}

/// Histories with many objects: each way to hand over each of the growing arrangements.
fn long_histories(ctx: &Ctx) {
    use crate::scale::*;
    let q = ctx.quick();
    let mut fams = vec![(growing(0..SHAPES, 3, if q { 16 } else { 80 }), ID), (grown_to(0..SHAPES, if q { 257 } else { 1025 }), ID)];
    fams.push((growing(0..SHAPES, 7, if q { 9 } else { 40 }), map(1_000_003, -70_001, 9, 3)));
    for (fam, m) in fams {
        ctx.explore(&format!("{} handed over in each way of {WAYS:?} x {m:?}", fam.name), fam.chunks, |c, w| {
            (fam.gen)(c, &mut |inp: Input| {
                let inp = inp.map(|p| m.p(p));
                for (k, name) in WAYS.iter().enumerate() {
                    let case = || format!("{name}: {}", case_text(&inp, &ID));
                    long_one(ctx, &inp, k, case, w);
                }
            });
        });
    }
    let mut list = giants(false, if q { &[9, 22, 28] } else { &[1, 9, 10, 11, 22, 28] }, 66_000);
    list.extend(giants(false, if q { &[4, 9, 11, 22] } else { &[4, 9, 10, 11, 18, 22, 28] }, 4097));
    let n = list.len() * WAYS.len();
    ctx.explore(&format!("{:?} in each of these ways", list.iter().map(|l| &l.0).collect::<Vec<_>>()), n, |c, w| {
        let (name, inp) = &list[c / WAYS.len()];
        let k = c % WAYS.len();
        long_one(ctx, inp, k, || format!("{}: {name}", WAYS[k]), w);
    });
}

fn long_one(ctx: &Ctx, inp: &Input, k: usize, case: impl Fn() -> String, w: &mut Worker) {
    if ctx.stopped() || !w.begin(&case) {
        return;
    }
    let ops = way(inp, k);
    let hist: Vec<usize> = (0..ops.len()).collect();
    w.states += 1;
    w.transitions += ops.len() as u64;
    w.traces += 2;
    if let Err(e) = p07_one(&ops, &hist, &Mutex::new(HashMap::new())) {
        ctx.violation(&case(), &e);
    }
    w.end();
}

// ------------------------------------------------------------------------------------ P10
const COLORS: [u32; 6] = [0, 1, 2, 3 << 25, 1 << 26, (1 << 27) - 1];

#[derive(Clone, Copy, Debug, PartialEq)]
struct COp {
    or: bool,
    /// 0: through the diagram by id, 1: through a copy of the record and Cell::set
    via: u8,
    vertex: bool,
    rec: usize,
    color: u32,
}

fn apply(d: &Diagram<f64>, o: &COp) -> Result<(), String> {
    let e = |e: BvError| format!("{o:?}: Err({e:?})");
    match (o.vertex, o.via, o.or) {
        (false, 0, false) => d.edge_set_color(EdgeIndex(o.rec), o.color).map_err(e)?,
        (false, 0, true) => d.edge_or_color(EdgeIndex(o.rec), o.color).map_err(e)?,
        (true, 0, false) => d.vertex_set_color(VertexIndex(o.rec), o.color).map_err(e)?,
        (true, 0, true) => d.vertex_or_color(VertexIndex(o.rec), o.color),
        (false, _, or) => {
            let cell = d.get_edge(EdgeIndex(o.rec)).map_err(e)?;
            let mut x = cell.get();
            let _ = if or { x.or_color(o.color) } else { x.set_color(o.color) };
            cell.set(x);
        }
        (true, _, or) => {
            let cell = d.vertex_get(VertexIndex(o.rec)).map_err(e)?;
            let mut x = cell.get();
            let _ = if or { x.or_color(o.color) } else { x.set_color(o.color) };
            cell.set(x);
        }
    }
    Ok(())
}

fn apply_sync(d: &mut SyncDiagram<f64>, o: &COp) -> Result<(), String> {
    let e = |e: BvError| format!("{o:?}: Err({e:?})");
    if o.vertex {
        let v = d.vertex_get_mut(VertexIndex(o.rec)).map_err(e)?;
        let _ = if o.or { v.or_color(o.color) } else { v.set_color(o.color) };
    } else {
        let v = d.edge_get_mut(EdgeIndex(o.rec)).map_err(e)?;
        let _ = if o.or { v.or_color(o.color) } else { v.set_color(o.color) };
    }
    Ok(())
}

fn model(s: &mut Snap, o: &COp) {
    let c = if o.vertex { &mut s.verts[o.rec].color } else { &mut s.edges[o.rec].color };
    *c = if o.or { *c | o.color } else { o.color };
}

fn getters(d: &Diagram<f64>, s: &Snap) -> Result<(), String> {
    for (i, e) in s.edges.iter().enumerate() {
        if d.edge_get_color(EdgeIndex(i)).ok() != Some(e.color) {
            return Err(format!("edge_get_color({i}) is {:?}, the color is {}", d.edge_get_color(EdgeIndex(i)), e.color));
        }
    }
    for (i, v) in s.verts.iter().enumerate() {
        if d.vertex_get_color(Some(VertexIndex(i))) != Some(v.color) {
            return Err(format!("vertex_get_color({i}) is {:?}, the color is {}", d.vertex_get_color(Some(VertexIndex(i))), v.color));
        }
        if d.vertex_is_site_point(VertexIndex(i)).ok() != Some(v.site) {
            return Err(format!("vertex_is_site_point({i}) changed"));
        }
    }
    Ok(())
}

fn diff(a: &Snap, b: &Snap) -> String {
    for (x, y) in a.edges.iter().zip(&b.edges) {
        if x != y {
            return format!("{y:?} instead of {x:?}");
        }
    }
    for (x, y) in a.verts.iter().zip(&b.verts) {
        if x != y {
            return format!("{y:?} instead of {x:?}");
        }
    }
    "other records".into()
}

fn p10_seq(inp: &Input, seq: &[COp]) -> Result<(), String> {
    let d = build::<i32, f64>(inp)?;
    let mut want = Snap::of(&d);
    if let Some(e) = want.edges.iter().find(|e| e.color != 0) {
        return Err(format!("edge {} of a new diagram has the color {}", e.id, e.color));
    }
    if let Some(v) = want.verts.iter().find(|e| e.color != 0) {
        return Err(format!("vertex {} of a new diagram has the color {}", v.id, v.color));
    }
    let mut sd: SyncDiagram<f64> = build::<i32, f64>(inp)?.into();
    for (k, o) in seq.iter().enumerate() {
        guard(|| apply(&d, o))?;
        guard(|| apply_sync(&mut sd, o))?;
        model(&mut want, o);
        let got = Snap::of(&d);
        if got != want {
            return Err(format!("after operation {k}: {}", diff(&want, &got)));
        }
        let got = Snap::of_sync(&sd);
        if got != want {
            return Err(format!("SyncDiagram after operation {k}: {}", diff(&want, &got)));
        }
        getters(&d, &want)?;
    }
    let sd: SyncDiagram<f64> = d.into();
    let got = Snap::of_sync(&sd);
    if got != want {
        return Err(format!("converted to SyncDiagram: {}", diff(&want, &got)));
    }
    Ok(())
}

pub fn p10(ctx: &Ctx) {
    // an angle and a point: linear, curved, secondary, infinite edges; a site vertex
    let inputs = [
        "P 4,1 S 0,0,0,5 0,0,5,0",
        "P 0,0 4,0 0,4 4,4 1,2 S ",
    ];
    let depth = if ctx.quick() { 3 } else { 4 };
    for t in inputs {
        let inp = Input::parse(t).unwrap();
        let s = match crate::diag::snap(&inp) {
            Ok(s) => s,
            Err(e) => {
                ctx.violation(t, &e);
                continue;
            }
        };
        // one edge of each kind, and its twin; a site vertex and another one
        let mut recs: Vec<(bool, usize)> = Vec::new();
        let mut kinds = Vec::new();
        for e in &s.edges {
            let k = (e.linear, e.primary, e.v0.is_some());
            if !kinds.contains(&k) {
                kinds.push(k);
                recs.push((false, e.id));
            }
        }
        recs.push((false, s.edges[recs[0].1].twin.unwrap()));
        for site in [true, false] {
            if let Some(v) = s.verts.iter().find(|v| v.site == site) {
                recs.push((true, v.id));
            }
        }
        // every operation on one record; the sequences on one record are complete, and all pairs
        // of operations on two different records
        let ops = |r: (bool, usize)| -> Vec<COp> {
            let mut v = Vec::new();
            for or in [false, true] {
                for via in 0..2 {
                    for color in COLORS {
                        v.push(COp { or, via, vertex: r.0, rec: r.1, color });
                    }
                }
            }
            v
        };
        let one = ops(recs[0]).len();
        ctx.explore(&format!("{t}: all sequences of {depth} color operations on each of the records {recs:?}"), recs.len() * one, |c, w| {
            let os = ops(recs[c / one]);
            let mut idx = vec![0usize; depth];
            idx[0] = c % one;
            'seq: loop {
                let seq: Vec<COp> = idx.iter().map(|&i| os[i]).collect();
                let case = format!("{t} : {}", text(&seq));
                if w.begin(|| case.clone()) && !w.ctx.stopped() {
                    w.states += depth as u64;
                    w.transitions += depth as u64;
                    w.traces += 1;
                    if let Err(e) = p10_seq(&inp, &seq) {
                        ctx.violation(&case, &e);
                    }
                    w.end();
                }
                let mut k = depth - 1;
                loop {
                    if k == 0 {
                        break 'seq;
                    }
                    idx[k] += 1;
                    if idx[k] < one {
                        break;
                    }
                    idx[k] = 0;
                    k -= 1;
                }
            }
        });
        let n = recs.len();
        ctx.explore(&format!("{t}: all pairs of operations on two of the records {recs:?}"), n * n, |c, w| {
            let (a, b) = (recs[c / n], recs[c % n]);
            if a == b {
                return;
            }
            for x in ops(a) {
                for y in ops(b) {
                    let seq = [x, y];
                    let case = format!("{t} : {}", text(&seq));
                    if w.begin(|| case.clone()) && !w.ctx.stopped() {
                        w.states += 2;
                        w.transitions += 2;
                        w.traces += 1;
                        if let Err(e) = p10_seq(&inp, &seq) {
                            ctx.violation(&case, &e);
                        }
                        w.end();
                    }
                }
            }
        });
        // every bit of the color
        let bits: Vec<(bool, u32)> = [false, true].iter().flat_map(|&or| (0..27).map(move |b| (or, 1u32 << b))).collect();
        ctx.explore(&format!("{t}: all pairs of operations with colors of one bit (27 bits) on each of the records {recs:?}"), n * bits.len(), |c, w| {
            let r = recs[c / bits.len()];
            let op = |b: (bool, u32)| COp { or: b.0, via: 0, vertex: r.0, rec: r.1, color: b.1 };
            for y in &bits {
                let seq = [op(bits[c % bits.len()]), op(*y)];
                let case = format!("{t} : {}", text(&seq));
                if w.begin(|| case.clone()) && !w.ctx.stopped() {
                    w.states += 2;
                    w.transitions += 2;
                    w.traces += 1;
                    if let Err(e) = p10_seq(&inp, &seq) {
                        ctx.violation(&case, &e);
                    }
                    w.end();
                }
            }
        });
        // every record, every operation
        let all: Vec<(bool, usize)> = (0..s.edges.len()).map(|i| (false, i)).chain((0..s.verts.len()).map(|i| (true, i))).collect();
        ctx.explore(&format!("{t}: every operation on every record"), all.len(), |c, w| {
            for o in ops(all[c]) {
                let case = format!("{t} : {}", text(&[o]));
                if w.begin(|| case.clone()) && !w.ctx.stopped() {
                    w.states += 1;
                    w.transitions += 1;
                    w.traces += 1;
                    if let Err(e) = p10_seq(&inp, &[o]) {
                        ctx.violation(&case, &e);
                    }
                    w.end();
                }
            }
        });
    }
    // more than 2^16 records, all of them colored
    let list = crate::scale::giants(false, if ctx.quick() { &[9, 28] } else { &[1, 9, 10, 11, 22, 28] }, 66_000);
    crate::scale::explore_giants(ctx, &list, |inp, w| {
        let d = build::<i32, f64>(inp)?;
        let mut want = Snap::of(&d);
        let (mut x, mut n) = (12345u32, 0);
        for or in [false, true] {
            for k in 0..want.edges.len() + want.verts.len() {
                x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                let (vertex, rec) = if k < want.edges.len() { (false, k) } else { (true, k - want.edges.len()) };
                let o = COp { or, via: (k % 2) as u8, vertex, rec, color: x >> 5 };
                guard(|| apply(&d, &o))?;
                model(&mut want, &o);
                n += 1;
            }
            let got = Snap::of(&d);
            if got != want {
                return Err(format!("all records colored (or: {or}): {}", diff(&want, &got)));
            }
            getters(&d, &want)?;
        }
        w.transitions += n;
        let sd: SyncDiagram<f64> = d.into();
        let got = Snap::of_sync(&sd);
        if got != want {
            return Err(format!("converted to SyncDiagram: {}", diff(&want, &got)));
        }
        Ok(())
    });
    ctx.assume("colors of up to 27 bits: sequences from a list of six, pairs of all single bits; sequences up to the bound");
}

fn text(seq: &[COp]) -> String {
    seq.iter()
        .map(|o| {
            format!(
                "{}{}_{}{}({})",
                if o.vertex { "v" } else { "e" },
                o.rec,
                if o.or { "or" } else { "set" },
                if o.via == 0 { "" } else { "_cell" },
                o.color
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}
