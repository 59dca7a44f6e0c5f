//! Finite families of inputs, enumerated completely.
use crate::input::*;
use crate::run::*;
use crate::segs::SegSpace;

/// A similarity with integer coefficients: symmetry, then scale, then translation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Map {
    pub sc: i64,
    pub tx: i64,
    pub ty: i64,
    pub sym: u8,
}
pub const ID: Map = Map { sc: 1, tx: 0, ty: 0, sym: 0 };
pub const fn map(sc: i64, tx: i64, ty: i64, sym: u8) -> Map {
    Map { sc, tx, ty, sym }
}
impl Map {
    pub fn symm(&self, p: P) -> P {
        let mut p = p;
        if self.sym & 1 != 0 {
            p[0] = -p[0];
        }
        if self.sym & 2 != 0 {
            p[1] = -p[1];
        }
        if self.sym & 4 != 0 {
            p.swap(0, 1);
        }
        p
    }
    pub fn mirrors(&self) -> bool {
        self.sym.count_ones() % 2 == 1
    }
    pub fn p(&self, p: P) -> P {
        let p = self.symm(p);
        [p[0] * self.sc + self.tx, p[1] * self.sc + self.ty]
    }
    /// undo scale and translation (not the symmetry)
    pub fn undo(&self, x: f64, y: f64) -> (f64, f64) {
        ((x - self.tx as f64) / self.sc as f64, (y - self.ty as f64) / self.sc as f64)
    }
    pub fn text(&self) -> String {
        format!("@{},{},{},{}", self.sc, self.tx, self.ty, self.sym)
    }
    /// size of the coordinates in units of the base input (whose extent is about `ext`)
    pub fn unit_magnitude(&self, ext: f64) -> f64 {
        (self.tx.abs().max(self.ty.abs()) as f64) / self.sc as f64 + ext
    }
}

pub fn case_text(base: &Input, m: &Map) -> String {
    if *m == ID {
        base.text()
    } else {
        format!("{} {}", base.text(), m.text())
    }
}

type Gen = Box<dyn Fn(usize, &mut dyn FnMut(Input)) + Send + Sync>;

pub struct Family {
    pub name: String,
    pub chunks: usize,
    pub gen: Gen,
}

impl Family {
    pub fn each(&self, c: usize, f: &mut dyn FnMut(Input)) {
        (self.gen)(c, f)
    }
}

/// All subsets of a w x h grid with lo..=hi points.
pub fn point_subsets(w: i64, h: i64, lo: u32, hi: u32) -> Family {
    let grid: Vec<P> = (0..w * h).map(|i| [i / h, i % h]).collect();
    point_subsets_of(&format!("all sets of {lo}..{hi} points of the {w}x{h} grid"), grid, lo, hi)
}

pub fn point_subsets_of(name: &str, grid: Vec<P>, lo: u32, hi: u32) -> Family {
    let n = grid.len();
    let hb = n.min(8);
    // chunk: choice among the first hb points
    Family {
        name: name.to_string(),
        chunks: 1 << hb,
        gen: Box::new(move |c, f| {
            let mut set: Vec<P> = (0..hb).filter(|i| c >> i & 1 == 1).map(|i| grid[i]).collect();
            fn rec(grid: &[P], from: usize, lo: u32, hi: u32, set: &mut Vec<P>, f: &mut dyn FnMut(Input)) {
                if set.len() as u32 > hi {
                    return;
                }
                if set.len() as u32 >= lo {
                    f(Input { pts: set.clone(), segs: vec![] });
                }
                if set.len() as u32 == hi {
                    return;
                }
                for i in from..grid.len() {
                    set.push(grid[i]);
                    rec(grid, i + 1, lo, hi, set, f);
                    set.pop();
                }
            }
            rec(&grid, hb, lo, hi, &mut set, f);
        }),
    }
}

/// All valid segment sets of lo..=k segments on a w x h grid, with all sets of at most maxp further
/// points. Each segment points in a direction chosen by `rev` (bit i: direction of the i-th).
pub fn seg_sets(w: i64, h: i64, lo: usize, k: usize, maxp: u32) -> Family {
    seg_sets_of(&format!("the {w}x{h} grid"), SegSpace::new(w, h), lo, k, maxp)
}

/// The product grid of an alphabet of coordinates.
pub fn product(al: &[i64]) -> Vec<P> {
    al.iter().flat_map(|&x| al.iter().map(move |&y| [x, y])).collect()
}

/// The same on the product grid of an alphabet of coordinates.
pub fn seg_sets_al(al: &[i64], lo: usize, k: usize, maxp: u32) -> Family {
    seg_sets_of(&format!("the grid of the coordinates {al:?}"), SegSpace::over(product(al)), lo, k, maxp)
}

pub fn seg_sets_of(name: &str, sp: SegSpace, lo: usize, k: usize, maxp: u32) -> Family {
    let ns = sp.segs.len();
    Family {
        name: format!("all valid sets of {lo}..{k} segments and up to {maxp} points on {name}"),
        chunks: ns * ns + 1,
        gen: Box::new(move |c, f| {
            if c == ns * ns && lo > 0 {
                return;
            }
            let (i, j) = (c / ns, c % ns);
            let mut set = if c == ns * ns {
                vec![]
            } else if j < i {
                return;
            } else if i == j {
                vec![i]
            } else {
                vec![i, j]
            };
            if set.len() == 2 && !sp.compat[i][j] {
                return;
            }
            if set.len() > k {
                return;
            }
            // sets() extends the set; only {i, j} pairs may grow
            let kk = if set.len() == 2 { k } else { set.len() };
            sp.sets(&mut set, kk, &mut |set| {
                if set.len() < lo {
                    return;
                }
                let free = sp.free(set);
                subsets(free.len(), maxp as usize, &mut |sel| {
                    let pts: Vec<P> = sel.iter().map(|&i| free[i]).collect();
                    // directions alternate with the position, so that both occur everywhere
                    let segs: Vec<S> = set
                        .iter()
                        .enumerate()
                        .map(|(n, &i)| {
                            let s = sp.segs[i];
                            if (i + n) % 2 == 1 {
                                [s[2], s[3], s[0], s[1]]
                            } else {
                                s
                            }
                        })
                        .collect();
                    f(Input { pts, segs });
                });
            });
        }),
    }
}

/// All subsets of 0..n with at most k elements.
pub fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, k: usize, from: usize, sel: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(sel);
        if sel.len() == k {
            return;
        }
        for i in from..n {
            sel.push(i);
            rec(n, k, i + 1, sel, f);
            sel.pop();
        }
    }
    rec(n, k, 0, &mut Vec::new(), f)
}

/// All fixed polyominoes of exactly n cells, as sets of cells.
pub fn polyominoes(n: usize) -> Vec<Vec<P>> {
    use std::collections::BTreeSet;
    let norm = |c: &BTreeSet<P>| -> Vec<P> {
        let mx = c.iter().map(|p| p[0]).min().unwrap();
        let my = c.iter().map(|p| p[1]).min().unwrap();
        c.iter().map(|p| [p[0] - mx, p[1] - my]).collect()
    };
    let mut cur: BTreeSet<Vec<P>> = BTreeSet::new();
    cur.insert(vec![[0, 0]]);
    for _ in 1..n {
        let mut nx = BTreeSet::new();
        for p in &cur {
            let s: BTreeSet<P> = p.iter().copied().collect();
            for c in p {
                for d in [[0, 1], [1, 0], [0, -1], [-1, 0]] {
                    let q = [c[0] + d[0], c[1] + d[1]];
                    if !s.contains(&q) {
                        let mut t = s.clone();
                        t.insert(q);
                        nx.insert(norm(&t));
                    }
                }
            }
        }
        cur = nx;
    }
    cur.into_iter().collect()
}

/// Outline of a polyomino: unit edges, or edges merged across corners of degree two.
pub fn outline(cells: &[P], merged: bool, f: i64) -> Vec<S> {
    use std::collections::{BTreeMap, BTreeSet};
    let set: BTreeSet<P> = cells.iter().copied().collect();
    let mut e: BTreeSet<S> = BTreeSet::new(); // directed, interior on the left
    for c in cells {
        let (x, y) = (c[0], c[1]);
        if !set.contains(&[x, y - 1]) {
            e.insert([x, y, x + 1, y]);
        }
        if !set.contains(&[x + 1, y]) {
            e.insert([x + 1, y, x + 1, y + 1]);
        }
        if !set.contains(&[x, y + 1]) {
            e.insert([x + 1, y + 1, x, y + 1]);
        }
        if !set.contains(&[x - 1, y]) {
            e.insert([x, y + 1, x, y]);
        }
    }
    let mut v: Vec<S> = e.into_iter().collect();
    if merged {
        loop {
            let mut deg: BTreeMap<P, usize> = BTreeMap::new();
            for s in &v {
                *deg.entry([s[0], s[1]]).or_default() += 1;
                *deg.entry([s[2], s[3]]).or_default() += 1;
            }
            let mut hit = None;
            'o: for i in 0..v.len() {
                for j in 0..v.len() {
                    let (a, b) = (v[i], v[j]);
                    if i != j
                        && a[2] == b[0]
                        && a[3] == b[1]
                        && deg[&[a[2], a[3]]] == 2
                        && (a[2] - a[0]).signum() == (b[2] - b[0]).signum()
                        && (a[3] - a[1]).signum() == (b[3] - b[1]).signum()
                    {
                        hit = Some((i, j));
                        break 'o;
                    }
                }
            }
            match hit {
                Some((i, j)) => {
                    v[i] = [v[i][0], v[i][1], v[j][2], v[j][3]];
                    v.remove(j);
                }
                None => break,
            }
        }
    }
    v.iter().map(|s| [s[0] * f, s[1] * f, s[2] * f, s[3] * f]).collect()
}

/// Outlines of all fixed polyominoes with lo..=hi cells: unit and merged edges, without and with a
/// point in the middle of the first cell.
pub fn outlines(lo: usize, hi: usize) -> Family {
    let all: Vec<Vec<P>> = (lo..=hi).flat_map(polyominoes).collect();
    let per = 16;
    Family {
        name: format!("outlines of all fixed polyominoes of {lo}..{hi} cells (unit/merged edges, with/without inner point)"),
        chunks: (all.len() + per - 1) / per,
        gen: Box::new(move |c, f| {
            for cells in all.iter().skip(c * per).take(per) {
                for merged in [false, true] {
                    for inner in [false, true] {
                        let segs = outline(cells, merged, 2);
                        let pts = if inner { vec![[cells[0][0] * 2 + 1, cells[0][1] * 2 + 1]] } else { vec![] };
                        f(Input { pts, segs });
                    }
                }
            }
        }),
    }
}

/// k segments from a common point: all sets of lo..=hi primitive directions with coordinates up to r.
pub fn stars(r: i64, lo: usize, hi: usize) -> Family {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 { a.abs() } else { gcd(b, a % b) }
    }
    let mut dirs: Vec<P> = Vec::new();
    for x in -r..=r {
        for y in -r..=r {
            if gcd(x, y) == 1 {
                dirs.push([x, y]);
            }
        }
    }
    let n = dirs.len();
    Family {
        name: format!("stars: all sets of {lo}..{hi} of the {n} primitive directions up to {r}, common start or end point"),
        chunks: n,
        gen: Box::new(move |c, f| {
            fn rec(d: &[P], from: usize, lo: usize, hi: usize, set: &mut Vec<P>, f: &mut dyn FnMut(&[P])) {
                if set.len() >= lo {
                    f(set);
                }
                if set.len() == hi {
                    return;
                }
                for i in from..d.len() {
                    set.push(d[i]);
                    rec(d, i + 1, lo, hi, set, f);
                    set.pop();
                }
            }
            let mut set = vec![dirs[c]];
            rec(&dirs, c + 1, lo, hi, &mut set, &mut |set| {
                for out in [true, false] {
                    let segs = set
                        .iter()
                        .enumerate()
                        .map(|(i, d)| if out ^ (i % 3 == 2) { [0, 0, d[0], d[1]] } else { [d[0], d[1], 0, 0] })
                        .collect();
                    f(Input { pts: vec![], segs });
                }
            });
        }),
    }
}

pub const SHAPES: usize = 9;
/// One of the block shapes, inside the square (0,0)..(3,3).
pub fn shape(k: usize, o: P, inp: &mut Input) {
    let (x, y) = (o[0], o[1]);
    let mut s = |a: i64, b: i64, c: i64, d: i64| inp.segs.push([x + a, y + b, x + c, y + d]);
    match k {
        0 => {}
        1 => inp.pts.push([x + 1, y + 2]),
        2 => s(0, 1, 3, 1),
        3 => s(2, 3, 2, 0),
        4 => s(0, 0, 2, 3),
        5 => s(3, 0, 0, 2),
        6 => {
            s(0, 0, 3, 1);
            s(1, 3, 0, 0);
        }
        7 => {
            s(0, 0, 3, 0);
            s(3, 0, 1, 2);
            s(1, 2, 0, 0);
        }
        _ => {
            s(0, 0, 2, 0);
            s(2, 0, 2, 2);
            s(2, 2, 0, 2);
            s(0, 2, 0, 0);
            inp.pts.push([x + 1, y + 1]);
        }
    }
}

/// All assignments of shapes to the blocks of a w x h arrangement.
pub fn blocks(w: usize, h: usize, pitch: i64) -> Family {
    let n = w * h;
    let inner = SHAPES.pow((n - 1) as u32);
    let split = if n > 2 { SHAPES } else { 1 };
    Family {
        name: format!("all {SHAPES}^{n} assignments of shapes to {w}x{h} blocks (pitch {pitch})"),
        chunks: SHAPES * split,
        gen: Box::new(move |c, f| {
            let per = inner / split;
            for k in 0..per {
                let mut code = (c % SHAPES) * inner + (c / SHAPES) * per + k;
                let mut inp = Input::default();
                for b in 0..n {
                    let o = [(b % w) as i64 * pitch + (b / w) as i64 % 2, (b / w) as i64 * pitch];
                    shape(code % SHAPES, o, &mut inp);
                    code /= SHAPES;
                }
                if !inp.pts.is_empty() || !inp.segs.is_empty() {
                    f(inp);
                }
            }
        }),
    }
}

/// Larger inputs: a side x side arrangement of blocks whose shapes follow a linear recurrence
/// (i*a + j*b) mod m for all a, b < m.
pub fn quilts(side: usize, m: usize) -> Family {
    Family {
        name: format!("quilts: {side}x{side} blocks with shapes (a*i + b*j + i*j) mod {m} for all a, b < {m}"),
        chunks: m * m,
        gen: Box::new(move |c, f| {
            let (a, b) = (c / m, c % m);
            let mut inp = Input::default();
            for i in 0..side {
                for j in 0..side {
                    let k = (a * i + b * j + i * j) % m;
                    shape(k % SHAPES, [i as i64 * 4 + (j % 2) as i64, j as i64 * 4], &mut inp);
                }
            }
            if !inp.pts.is_empty() || !inp.segs.is_empty() {
                f(inp);
            }
        }),
    }
}

/// Point lattices: n points (i*a mod m, i*b mod m), all a, b < m.
pub fn lattices(n: i64, m: i64) -> Family {
    Family {
        name: format!("lattices: points (i*a mod {m}, i*b mod {m}), i < {n}, for all a, b < {m}"),
        chunks: m as usize,
        gen: Box::new(move |c, f| {
            let a = c as i64;
            for b in 0..m {
                let pts: Vec<P> = (0..n).map(|i| [(i * a) % m, (i * b) % m]).collect();
                f(Input { pts, segs: vec![] });
            }
        }),
    }
}

/// All integer points on the circle x^2 + y^2 = r2.
pub fn circle(r2: i64) -> Vec<P> {
    let r = (r2 as f64).sqrt() as i64 + 1;
    let mut v = Vec::new();
    for x in -r..=r {
        for y in -r..=r {
            if x * x + y * y == r2 {
                v.push([x, y]);
            }
        }
    }
    v
}

/// Explore every input of a family under every map.
pub fn explore(ctx: &Ctx, fam: &Family, maps: &[Map], f: impl Fn(&Input, &Map, &mut Worker) + Sync) {
    let mt: Vec<String> = maps.iter().map(|m| m.text()).collect();
    ctx.explore(&format!("{} x maps [{}]", fam.name, mt.join(" ")), fam.chunks, |c, w| {
        fam.each(c, &mut |inp| {
            if ctx.stopped() {
                return;
            }
            for m in maps {
                if !w.begin(|| case_text(&inp, m)) {
                    continue;
                }
                w.states += 1;
                w.transitions += (inp.pts.len() + inp.segs.len()) as u64;
                f(&inp, m, w);
            }
        });
    });
}
