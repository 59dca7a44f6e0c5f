//! Combinatorial well-formedness of a diagram snapshot.
use crate::snap::*;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn check(s: &Snap) -> Result<(), String> {
    check_with(s, false)
}

/// `collapsed`: cells may be smaller than the resolution of the output, and have no edges.
pub fn check_with(s: &Snap, collapsed: bool) -> Result<(), String> {
    let (nc, nv, ne) = (s.cells.len(), s.verts.len(), s.edges.len());
    for (i, c) in s.cells.iter().enumerate() {
        ck!(c.id == i, "cell at position {i} has id {}", c.id);
        ck!(c.degenerate == c.inc.is_none(), "cell {i}: is_degenerate contradicts the incident edge");
        if let Some(e) = c.inc {
            ck!(e < ne, "cell {i}: incident edge {e} out of range");
            ck!(s.edges[e].cell == Some(i), "cell {i}: incident edge {e} belongs to cell {:?}", s.edges[e].cell);
        }
    }
    for (i, v) in s.verts.iter().enumerate() {
        ck!(v.id == i, "vertex at position {i} has id {}", v.id);
        ck!(v.x.is_finite() && v.y.is_finite(), "vertex {i} is not finite");
        ck!(v.inc.is_some(), "vertex {i} has no incident edge");
        let e = v.inc.unwrap();
        ck!(e < ne, "vertex {i}: incident edge {e} out of range");
        ck!(s.edges[e].v0 == Some(i), "vertex {i}: incident edge {e} starts at {:?}", s.edges[e].v0);
    }
    for (i, e) in s.edges.iter().enumerate() {
        ck!(e.id == i, "edge at position {i} has id {}", e.id);
        ck!(e.cell.map_or(false, |c| c < nc), "edge {i}: cell {:?}", e.cell);
        ck!(e.twin.map_or(false, |c| c < ne), "edge {i}: twin {:?}", e.twin);
        ck!(e.next.map_or(false, |c| c < ne), "edge {i}: next {:?}", e.next);
        ck!(e.prev.map_or(false, |c| c < ne), "edge {i}: prev {:?}", e.prev);
        ck!(e.v0.map_or(true, |c| c < nv), "edge {i}: vertex0 {:?}", e.v0);
        ck!(e.linear != e.curved, "edge {i}: linear and curved not complementary");
        ck!(e.primary != e.secondary, "edge {i}: primary and secondary not complementary");
    }
    for (i, e) in s.edges.iter().enumerate() {
        let (t, n, p) = (e.twin.unwrap(), e.next.unwrap(), e.prev.unwrap());
        ck!(t != i && s.edges[t].twin == Some(i), "edge {i}: twin {t} has twin {:?}", s.edges[t].twin);
        ck!(s.edges[t].cell != e.cell, "edge {i} and its twin bound the same cell");
        ck!(s.edges[t].linear == e.linear && s.edges[t].primary == e.primary, "edge {i} and its twin {t} differ in linear/primary");
        ck!(s.edges[n].prev == Some(i), "edge {i}: next {n} has prev {:?}", s.edges[n].prev);
        ck!(s.edges[p].next == Some(i), "edge {i}: prev {p} has next {:?}", s.edges[p].next);
        ck!(s.edges[n].cell == e.cell, "edge {i}: next {n} is in another cell");
        ck!(s.edges[n].v0 == s.v1(i), "edge {i}: ends at {:?} but next {n} starts at {:?}", s.v1(i), s.edges[n].v0);
        if nv == 0 {
            ck!(e.v0.is_none(), "edge {i} has a vertex, the diagram has none");
        }
    }
    // each cell: one loop
    let mut seen = vec![false; ne];
    for (i, c) in s.cells.iter().enumerate() {
        if let Some(e0) = c.inc {
            let mut e = e0;
            let mut inf_links = 0;
            loop {
                ck!(!seen[e], "cell {i}: loop revisits edge {e}");
                seen[e] = true;
                if s.v1(e).is_none() {
                    inf_links += 1;
                }
                e = s.edges[e].next.unwrap();
                if e == e0 {
                    break;
                }
            }
            if nv > 0 {
                ck!(inf_links <= 1, "cell {i} opens to infinity {inf_links} times");
            }
        }
    }
    ck!(seen.iter().all(|x| *x), "an edge is not on the loop of its cell");
    // each vertex: one rotation orbit
    let mut seen = vec![false; ne];
    for (i, v) in s.verts.iter().enumerate() {
        let e0 = v.inc.unwrap();
        let mut e = e0;
        let mut deg = 0;
        loop {
            ck!(!seen[e] && s.edges[e].v0 == Some(i), "vertex {i}: rotation meets edge {e} starting at {:?}", s.edges[e].v0);
            seen[e] = true;
            deg += 1;
            e = s.edges[s.edges[e].prev.unwrap()].twin.unwrap();
            if e == e0 {
                break;
            }
        }
        ck!(deg >= 3 || collapsed && deg == 2, "vertex {i} has degree {deg}");
    }
    for (i, e) in s.edges.iter().enumerate() {
        ck!(e.v0.is_none() || seen[i], "edge {i} is not on the rotation orbit of its vertex");
    }
    ck!(ne % 2 == 0, "odd number of half-edges");
    if nc == 0 {
        ck!(ne == 0 && nv == 0, "edges or vertices without cells");
    } else if nc == 1 {
        ck!(ne == 0 && nv == 0, "edges or vertices with one cell");
    } else {
        // only the cell of a segment endpoint can have no extent
        ck!(
            collapsed || s.cells.iter().all(|c| c.inc.is_some() || c.is_start || c.is_end || c.has_point),
            "a segment cell without edges"
        );
        let nf = s.cells.iter().filter(|c| c.inc.is_some()).count();
        // V + 1 (infinity) - E + F = 2
        ck!(
            nv as i64 + 1 - (ne as i64) / 2 + nf as i64 == 2,
            "Euler relation: {nv} vertices, {} edges, {nf} cells with edges",
            ne / 2
        );
    }
    Ok(())
}
