//! Comparison of a built diagram with the exact reference model of a point set.
use crate::input::*;
use crate::refpoint::*;
use crate::snap::*;
use std::collections::HashMap;

/// largest relative deviation seen (in units of 2^-52)
pub struct Dev(pub f64);

fn close(got: f64, want: f64, scale: f64, tol: f64, dev: &mut Dev) -> bool {
    let d = (got - want).abs();
    if d == 0.0 {
        return true;
    }
    let s = want.abs().max(scale);
    let u = d / s / f64::EPSILON;
    if u > dev.0 {
        dev.0 = u;
    }
    d <= tol * s
}

pub fn distinct(pts: &[P]) -> Vec<P> {
    let mut v = pts.to_vec();
    v.sort();
    v.dedup();
    v
}

/// Cells against the distinct input points. Returns for every cell the index in `distinct(pts)`.
pub fn cells(inp: &Input, s: &Snap) -> Result<(Vec<P>, Vec<usize>), String> {
    let d = distinct(&inp.pts);
    if s.cells.len() != d.len() {
        return Err(format!("{} cells for {} distinct points", s.cells.len(), d.len()));
    }
    let mut used = vec![false; d.len()];
    let mut map = Vec::new();
    for (i, c) in s.cells.iter().enumerate() {
        let p = inp.pts.get(c.src).ok_or_else(|| format!("cell {i}: source index {}", c.src))?;
        if c.cat != Cat::Single || !c.has_point || c.has_segment || c.is_start || c.is_end {
            return Err(format!("cell {i}: category {:?} for a point", c.cat));
        }
        let k = d.binary_search(p).unwrap();
        if used[k] {
            return Err(format!("two cells for the point {p:?}"));
        }
        used[k] = true;
        map.push(k);
    }
    Ok((d, map))
}

/// `abs`: absolute scale under which deviations are measured absolutely (coordinates' size).
pub fn compare(inp: &Input, s: &Snap, tol: f64, abs: f64, dev: &mut Dev) -> Result<usize, String> {
    let (d, map) = cells(inp, s)?;
    let r = voronoi_edges(&d);
    let mut by: HashMap<(usize, usize), usize> = HashMap::new();
    for (i, e) in s.edges.iter().enumerate() {
        let a = map[e.cell.ok_or("edge without cell")?];
        let t = e.twin.ok_or("edge without twin")?;
        let b = map[s.edges[t].cell.ok_or("edge without cell")?];
        if by.insert((a, b), i).is_some() {
            return Err(format!("two edges between the points {:?} and {:?}", d[a], d[b]));
        }
        if !e.linear || !e.primary {
            return Err(format!("edge {i} between points is not linear and primary"));
        }
    }
    for e in &r {
        let i = *by.get(&(e.a, e.b)).ok_or_else(|| {
            format!("missing edge between {:?} and {:?} from {:?} to {:?}", d[e.a], d[e.b], e.from, e.to)
        })?;
        for (what, got, want) in [("start", s.edges[i].v0, e.from), ("end", s.v1(i), e.to)] {
            let got = got.map(|v| (s.verts[v].x, s.verts[v].y));
            let ok = match (got, want) {
                (None, None) => true,
                (Some(g), Some(w)) => close(g.0, w.x, abs, tol, dev) & close(g.1, w.y, abs, tol, dev),
                _ => false,
            };
            if !ok {
                return Err(format!(
                    "edge with {:?} on the left and {:?} on the right: {what} is {got:?}, should be {want:?}",
                    d[e.a], d[e.b]
                ));
            }
        }
    }
    if s.edges.len() != 2 * r.len() {
        for (a, b) in by.keys() {
            if !r.iter().any(|e| (e.a, e.b) == (*a, *b) || (e.b, e.a) == (*a, *b)) {
                return Err(format!("superfluous edge between {:?} and {:?}", d[*a], d[*b]));
            }
        }
        return Err(format!("{} half-edges, should be {}", s.edges.len(), 2 * r.len()));
    }
    Ok(r.len())
}
