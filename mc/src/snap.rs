//! Plain snapshot of a diagram, taken through the public API of boostvoronoi only.
use boostvoronoi::prelude::*;
use boostvoronoi::{SourceCategory, SyncDiagram};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cat {
    Single,
    Start,
    End,
    Seg,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SCell {
    pub id: usize,
    pub src: usize,
    pub cat: Cat,
    pub has_point: bool,
    pub has_segment: bool,
    pub is_start: bool,
    pub is_end: bool,
    pub degenerate: bool,
    pub inc: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SVert {
    pub id: usize,
    pub x: f64,
    pub y: f64,
    pub inc: Option<usize>,
    pub site: bool,
    pub color: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SEdge {
    pub id: usize,
    pub cell: Option<usize>,
    pub twin: Option<usize>,
    pub next: Option<usize>,
    pub prev: Option<usize>,
    pub v0: Option<usize>,
    pub linear: bool,
    pub curved: bool,
    pub primary: bool,
    pub secondary: bool,
    pub color: u32,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Snap {
    pub cells: Vec<SCell>,
    pub verts: Vec<SVert>,
    pub edges: Vec<SEdge>,
}

pub fn scell(c: &Cell) -> SCell {
    let (src, cat) = c.source_index_2();
    assert_eq!(src, c.source_index());
    assert_eq!(cat, c.source_category());
    SCell {
        id: c.id().0,
        src,
        cat: match cat {
            SourceCategory::SinglePoint => Cat::Single,
            SourceCategory::SegmentStart => Cat::Start,
            SourceCategory::SegmentEnd => Cat::End,
            SourceCategory::Segment => Cat::Seg,
        },
        has_point: c.contains_point(),
        has_segment: c.contains_segment(),
        is_start: c.contains_segment_startpoint(),
        is_end: c.contains_segment_endpoint(),
        degenerate: c.is_degenerate(),
        inc: c.get_incident_edge().map(|e| e.0),
    }
}

pub fn svert<F: OutputType>(v: &Vertex<F>) -> SVert {
    SVert {
        id: v.get_id().0,
        x: v.x().to_f64().unwrap(),
        y: v.y().to_f64().unwrap(),
        inc: v.get_incident_edge().ok().map(|e| e.0),
        site: v.is_site_point(),
        color: v.get_color(),
    }
}

pub fn sedge(e: &Edge) -> SEdge {
    SEdge {
        id: e.id().0,
        cell: e.cell().ok().map(|c| c.0),
        twin: e.twin().ok().map(|c| c.0),
        next: e.next().ok().map(|c| c.0),
        prev: e.prev().ok().map(|c| c.0),
        v0: e.vertex0().map(|c| c.0),
        linear: e.is_linear(),
        curved: e.is_curved(),
        primary: e.is_primary(),
        secondary: e.is_secondary(),
        color: e.get_color(),
    }
}

impl Snap {
    pub fn of<F: OutputType>(d: &Diagram<F>) -> Snap {
        Snap {
            cells: d.cells().iter().map(|c| scell(&c.get())).collect(),
            verts: d.vertices().iter().map(|v| svert(&v.get())).collect(),
            edges: d.edges().iter().map(|e| sedge(&e.get())).collect(),
        }
    }
    pub fn of_sync<F: OutputType>(d: &SyncDiagram<F>) -> Snap {
        Snap {
            cells: d.cells().iter().map(scell).collect(),
            verts: d.vertices().iter().map(svert).collect(),
            edges: d.edges().iter().map(sedge).collect(),
        }
    }
    /// Second vertex of an edge: the first vertex of its twin.
    pub fn v1(&self, e: usize) -> Option<usize> {
        let t = self.edges[e].twin?;
        self.edges.get(t)?.v0
    }
}
