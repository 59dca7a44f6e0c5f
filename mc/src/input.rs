//! Site inputs: text form (used in replay files, samples and finding keys), building.
use boostvoronoi::prelude::*;

pub type P = [i64; 2];
pub type S = [i64; 4];

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Input {
    pub pts: Vec<P>,
    pub segs: Vec<S>,
}

impl Input {
    pub fn text(&self) -> String {
        let p: Vec<String> = self.pts.iter().map(|p| format!("{},{}", p[0], p[1])).collect();
        let s: Vec<String> = self
            .segs
            .iter()
            .map(|s| format!("{},{},{},{}", s[0], s[1], s[2], s[3]))
            .collect();
        format!("P {} S {}", p.join(" "), s.join(" "))
    }
    pub fn parse(t: &str) -> Option<Input> {
        let mut inp = Input::default();
        let mut mode = 0;
        for w in t.split_whitespace() {
            match w {
                "P" => mode = 1,
                "S" => mode = 2,
                _ => {
                    let v: Vec<i64> = w.split(',').filter_map(|x| x.parse().ok()).collect();
                    if mode == 1 && v.len() == 2 {
                        inp.pts.push([v[0], v[1]]);
                    } else if mode == 2 && v.len() == 4 {
                        inp.segs.push([v[0], v[1], v[2], v[3]]);
                    } else {
                        return None;
                    }
                }
            }
        }
        Some(inp)
    }
    pub fn map(&self, f: impl Fn(P) -> P) -> Input {
        Input {
            pts: self.pts.iter().map(|&p| f(p)).collect(),
            segs: self
                .segs
                .iter()
                .map(|s| {
                    let a = f([s[0], s[1]]);
                    let b = f([s[2], s[3]]);
                    [a[0], a[1], b[0], b[1]]
                })
                .collect(),
        }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

/// Build with coordinate type `I` and output type `F`; a panic is turned into an Err.
pub fn build<I: InputType, F: OutputType>(inp: &Input) -> Result<Diagram<F>, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let c = |v: i64| -> I { cast::<i64, I>(v) };
        let mut b = Builder::<I, F>::default();
        if !inp.pts.is_empty() {
            let v: Vec<[I; 2]> = inp.pts.iter().map(|p| [c(p[0]), c(p[1])]).collect();
            b = b.with_vertices(v.iter())?;
        }
        if !inp.segs.is_empty() {
            let v: Vec<[I; 4]> = inp
                .segs
                .iter()
                .map(|s| [c(s[0]), c(s[1]), c(s[2]), c(s[3])])
                .collect();
            b = b.with_segments(v.iter())?;
        }
        b.build()
    }));
    match r {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("build() returned Err({e:?})")),
        Err(p) => Err(format!("build() panicked: {}", panic_text(p))),
    }
}
