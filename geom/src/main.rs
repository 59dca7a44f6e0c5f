//! geom P19: every conversion from and to the types of the geometry crates, and builders fed by them.
#[path = "../../mc/src/run.rs"]
mod run;
#[path = "../../mc/src/input.rs"]
mod input;
#[path = "../../mc/src/snap.rs"]
mod snap;
mod diag {
    pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", crate::input::panic_text(p))),
        }
    }
}
use boostvoronoi::prelude::*;
use boostvoronoi::{cast, cgmath, geo, glam, mint, try_cast};
use boostvoronoi_core::diagram::{Vertex, VertexIndex};
use diag::guard;
use input::{Input, P, S};
use run::*;
use std::collections::{BTreeSet, HashSet};

type R = Result<(), String>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

trait Int: InputType + geo::CoordNum + cgmath::BaseNum + nalgebra::Scalar + serde::Serialize + serde::de::DeserializeOwned {}
impl Int for i32 {}
impl Int for i64 {}
trait Flt: OutputType + geo::CoordFloat + cgmath::BaseFloat + nalgebra::Scalar {}
impl Flt for f32 {}
impl Flt for f64 {}

fn xy<T: InputType>(p: Point<T>) -> [T; 2] {
    [p.x, p.y]
}
fn ends<T: InputType>(l: Line<T>) -> [T; 4] {
    [l.start.x, l.start.y, l.end.x, l.end.y]
}

fn point<T: Int>(x: T, y: T) -> R {
    let w = [x, y];
    let p = Point { x, y };
    same("Point::new", xy(Point::new(x, y)), w)?;
    same("Point from [T; 2]", xy(Point::from([x, y])), w)?;
    same("Point from &[T; 2]", xy(Point::from(&[x, y])), w)?;
    same("Point from &Point", xy(Point::from(&p)), w)?;
    let f = [x.to_f64().unwrap(), y.to_f64().unwrap()];
    same("Point::as_f64", p.as_f64(), f)?;
    same("[f64; 2] from Point", <[f64; 2]>::from(p), f)?;
    // geo
    let (gc, gp) = (geo::Coord { x, y }, geo::Point::new(x, y));
    same("Point from geo::Coord", xy(Point::from(gc)), w)?;
    same("Point from &geo::Coord", xy(Point::from(&gc)), w)?;
    same("Point from geo::Point", xy(Point::from(gp)), w)?;
    same("Point from &geo::Point", xy(Point::from(&gp)), w)?;
    same("geo::Coord from Point", geo::Coord::from(p), gc)?;
    same("geo::Coord from &Point", geo::Coord::from(&p), gc)?;
    same("geo::Point from Point", geo::Point::from(p), gp)?;
    // cgmath
    let c = cgmath::Point2::new(x, y);
    same("Point from cgmath::Point2", xy(Point::from(c)), w)?;
    same("Point from &cgmath::Point2", xy(Point::from(&c)), w)?;
    same("cgmath::Point2 from Point", cgmath::Point2::from(p), c)?;
    // mint
    let m = mint::Point2 { x, y };
    same("Point from mint::Point2", xy(Point::from(m)), w)?;
    same("Point from &mint::Point2", xy(Point::from(&m)), w)?;
    same("mint::Point2 from Point", mint::Point2::from(p), m)?;
    // nalgebra
    let n = nalgebra::Point2::new(x, y);
    same("Point from nalgebra::Point2", xy(Point::from(n)), w)?;
    same("Point from &nalgebra::Point2", xy(Point::from(&n)), w)?;
    same("nalgebra::Point2 from Point", nalgebra::Point2::from(p), n)?;
    // equality, order, hash
    let (i, j) = (x.to_i64().unwrap(), y.to_i64().unwrap());
    let q = Point { x: y, y: x };
    same("==", p == q, i == j)?;
    same("partial_cmp", p.partial_cmp(&q), (i, j).partial_cmp(&(j, i)))?;
    let set: HashSet<Point<T>> = [p, q, p].into_iter().collect();
    same("different points in a hash set", set.len(), if i == j { 1 } else { 2 })?;
    let js = serde_json::to_string(&p).map_err(|e| e.to_string())?;
    same("serialized and read again", xy(serde_json::from_str::<Point<T>>(&js).map_err(|e| e.to_string())?), w)
}

fn point32(x: i32, y: i32) -> R {
    let v = glam::IVec2::new(x, y);
    same("Point from glam::IVec2", xy(Point::from(v)), [x, y])?;
    same("Point from &glam::IVec2", xy(Point::from(&v)), [x, y])?;
    same("glam::IVec2 from Point", glam::IVec2::from(Point { x, y }), v)?;
    same("cast to i64", xy(Point { x, y }.cast::<i64>()), [x as i64, y as i64])?;
    same("cast to i64 and back", xy(Point { x, y }.cast::<i64>().cast::<i32>()), [x, y])
}

fn line<T: Int>(l: [T; 4]) -> R {
    let (a, b) = (Point { x: l[0], y: l[1] }, Point { x: l[2], y: l[3] });
    let n = Line { start: a, end: b };
    same("Line::new", ends(Line::new(a, b)), l)?;
    same("Line from [T; 4]", ends(Line::from(l)), l)?;
    same("Line from &[T; 4]", ends(Line::from(&l)), l)?;
    same("Line from &Line", ends(Line::from(&n)), l)?;
    same("[T; 4] from Line", <[T; 4]>::from(n), l)?;
    same("[T; 4] from &Line", <[T; 4]>::from(&n), l)?;
    same("Line from [Point; 2]", ends(Line::from([a, b])), l)?;
    same("Line from &[Point; 2]", ends(Line::from(&[a, b])), l)?;
    same("Line from [[T; 2]; 2]", ends(Line::<T>::from([[l[0], l[1]], [l[2], l[3]]])), l)?;
    same("Line from &[[T; 2]; 2]", ends(Line::<T>::from(&[[l[0], l[1]], [l[2], l[3]]])), l)?;
    let (ga, gb) = (geo::Coord { x: l[0], y: l[1] }, geo::Coord { x: l[2], y: l[3] });
    let g = geo::Line::new(ga, gb);
    same("geo::Line from Line", geo::Line::from(n), g)?;
    same("Line from geo::Line", ends(Line::from(g)), l)?;
    same("Line from &geo::Line", ends(Line::from(&g)), l)?;
    same("Line from [geo::Coord; 2]", ends(Line::<T>::from([ga, gb])), l)?;
    same("Line from [geo::Point; 2]", ends(Line::<T>::from([geo::Point::from(ga), geo::Point::from(gb)])), l)?;
    same("Line from [cgmath::Point2; 2]", ends(Line::<T>::from([cgmath::Point2::new(l[0], l[1]), cgmath::Point2::new(l[2], l[3])])), l)?;
    same("Line from [nalgebra::Point2; 2]", ends(Line::<T>::from([nalgebra::Point2::new(l[0], l[1]), nalgebra::Point2::new(l[2], l[3])])), l)?;
    let m = [mint::Point2 { x: l[0], y: l[1] }, mint::Point2 { x: l[2], y: l[3] }];
    same("Line from [mint::Point2; 2]", ends(Line::<T>::from(m)), l)?;
    same("Line from &[mint::Point2; 2]", ends(Line::<T>::from(&m)), l)?;
    same("[mint::Point2; 2] from Line", <[mint::Point2<T>; 2]>::from(n), m)?;
    let r = Line { start: b, end: a };
    same("==", n == r, l[0] == l[2] && l[1] == l[3])?;
    let js = serde_json::to_string(&n).map_err(|e| e.to_string())?;
    same("serialized and read again", ends(serde_json::from_str::<Line<T>>(&js).map_err(|e| e.to_string())?), l)
}

fn line32(l: [i32; 4]) -> R {
    let v = [glam::IVec2::new(l[0], l[1]), glam::IVec2::new(l[2], l[3])];
    same("Line from [glam::IVec2; 2]", ends(Line::<i32>::from(v)), l)?;
    same("[glam::IVec2; 2] from Line", <[glam::IVec2; 2]>::from(Line::from(l)), v)?;
    same("cast to i64", ends(Line::from(l).cast::<i64>()), l.map(|v| v as i64))?;
    same("cast to i64 and back", ends(Line::from(l).cast::<i64>().cast::<i32>()), l)
}

fn vertex<F: Flt>(x: F, y: F, site: bool) -> R {
    let v: Vertex<F> = Vertex::<F>::new_3(VertexIndex(7), x, y, site).get();
    same("x", v.x(), x)?;
    same("y", v.y(), y)?;
    same("is_site_point", v.is_site_point(), site)?;
    same("id", v.get_id(), VertexIndex(7))?;
    same("[F; 2] from &Vertex", <[F; 2]>::from(&v), [x, y])?;
    same("geo::Coord from Vertex", geo::Coord::from(v), geo::Coord { x, y })?;
    same("geo::Coord from &Vertex", geo::Coord::from(&v), geo::Coord { x, y })?;
    same("geo::Point from Vertex", geo::Point::from(v), geo::Point::new(x, y))?;
    same("geo::Point from &Vertex", geo::Point::from(&v), geo::Point::new(x, y))?;
    same("cgmath::Point2 from Vertex", cgmath::Point2::from(v), cgmath::Point2::new(x, y))?;
    same("cgmath::Point2 from &Vertex", cgmath::Point2::from(&v), cgmath::Point2::new(x, y))?;
    same("mint::Point2 from Vertex", mint::Point2::from(v), mint::Point2 { x, y })?;
    same("mint::Point2 from &Vertex", mint::Point2::from(&v), mint::Point2 { x, y })?;
    same("nalgebra::Point2 from Vertex", nalgebra::Point2::from(v), nalgebra::Point2::new(x, y))?;
    same("nalgebra::Point2 from &Vertex", nalgebra::Point2::from(&v), nalgebra::Point2::new(x, y))
}

/// All ways to hand the input over to a builder give the diagram that plain arrays give.
fn builders<I: Int>(inp: &Input) -> Result<u64, String> {
    let c = |v: i64| cast::<i64, I>(v);
    let p: Vec<Point<I>> = inp.pts.iter().map(|p| Point::new(c(p[0]), c(p[1]))).collect();
    let s: Vec<[Point<I>; 2]> = inp.segs.iter().map(|s| [Point::new(c(s[0]), c(s[1])), Point::new(c(s[2]), c(s[3]))]).collect();
    let want = snap::Snap::of(&input::build::<I, f64>(inp)?);
    let mut n = 0;
    macro_rules! way {
        ($name:expr, $pt:expr, $sg:expr) => {{
            let (pt, sg) = ($pt, $sg);
            let vp: Vec<_> = p.iter().map(|p| pt(*p)).collect();
            let vs: Vec<_> = s.iter().map(|s| sg(s[0], s[1])).collect();
            let d = (|| Builder::<I, f64>::default().with_vertices(vp)?.with_segments(vs)?.build())().map_err(|e| format!("{}: {e:?}", $name))?;
            if snap::Snap::of(&d) != want {
                return Err(format!("objects of {} give a different diagram than arrays", $name));
            }
            n += 1;
        }};
    }
    way!("Point, Line", |p: Point<I>| p, |a: Point<I>, b: Point<I>| Line::new(a, b));
    way!("Point, [Point; 2]", |p: Point<I>| p, |a: Point<I>, b: Point<I>| [a, b]);
    way!("geo::Coord, geo::Line", |p: Point<I>| geo::Coord { x: p.x, y: p.y }, |a: Point<I>, b: Point<I>| geo::Line::new(geo::Coord { x: a.x, y: a.y }, geo::Coord { x: b.x, y: b.y }));
    way!("geo::Point", |p: Point<I>| geo::Point::new(p.x, p.y), |a: Point<I>, b: Point<I>| [geo::Point::new(a.x, a.y), geo::Point::new(b.x, b.y)]);
    way!("cgmath::Point2", |p: Point<I>| cgmath::Point2::new(p.x, p.y), |a: Point<I>, b: Point<I>| [cgmath::Point2::new(a.x, a.y), cgmath::Point2::new(b.x, b.y)]);
    way!("mint::Point2", |p: Point<I>| mint::Point2 { x: p.x, y: p.y }, |a: Point<I>, b: Point<I>| [mint::Point2 { x: a.x, y: a.y }, mint::Point2 { x: b.x, y: b.y }]);
    way!("nalgebra::Point2", |p: Point<I>| nalgebra::Point2::new(p.x, p.y), |a: Point<I>, b: Point<I>| [nalgebra::Point2::new(a.x, a.y), nalgebra::Point2::new(b.x, b.y)]);
    Ok(n)
}

fn p19(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("the geometry features all enabled; conversions of vertices of finite and infinite coordinates");
    let small: Vec<i64> = vec![0, 1, -1, 2, 7, -13, 1000, 0x7fff, -0x8000, 0xffff, 1 << 20, -2_147_483_648, 2_147_483_647, 2_147_483_646, -2_147_483_647];
    let mut big = small.clone();
    big.extend([i64::MIN, i64::MAX, 1 << 32, -(1 << 32), (1 << 32) + 5, (1 << 53) + 1, -(1 << 53), 2_147_483_648, -2_147_483_649, 123_456_789_012_345]);
    let err = |ctx: &Ctx, case: String, r: R| {
        if let Err(e) = r {
            ctx.violation(&case, &e);
        }
    };
    ctx.explore(&format!("P19 points: all pairs of {} coordinates (i64) and {} (i32), every conversion", big.len(), small.len()), big.len(), |c, w| {
        let x = big[c];
        for &y in &big {
            w.states += 1;
            w.transitions += 24;
            w.traces += 1;
            err(ctx, format!("point {x} {y} i64"), guard(|| point::<i64>(x, y)));
            // casts to i32: panic exactly if it does not fit
            let fits = i32::try_from(x).is_ok() && i32::try_from(y).is_ok();
            let r = guard(|| Ok(xy(Point::<i64> { x, y }.cast::<i32>())));
            match &r {
                Ok(v) if fits && *v == [x as i32, y as i32] => (),
                Err(_) if !fits => (),
                _ => ctx.violation(&format!("point {x} {y} cast to i32"), &format!("{r:?}")),
            }
            let t = guard(|| Ok((try_cast::<i64, i32>(x), try_cast::<i64, f64>(y), try_cast::<i64, i64>(y))));
            match &t {
                Ok((a, Ok(b), Ok(d))) if *b == y as f64 && *d == y => match a {
                    Ok(v) if *v as i64 == x => (),
                    Err(BvError::NumberConversion(_)) if i32::try_from(x).is_err() => (),
                    _ => ctx.violation(&format!("try_cast {x} to i32"), &format!("{a:?}")),
                },
                _ => ctx.violation(&format!("try_cast {x} {y}"), &format!("{t:?}")),
            }
            if small.contains(&x) && small.contains(&y) {
                w.states += 1;
                w.traces += 1;
                err(ctx, format!("point {x} {y} i32"), guard(|| point::<i32>(x as i32, y as i32).and_then(|_| point32(x as i32, y as i32))));
            }
        }
        w.end();
    });
    let few = big.clone();
    ctx.explore(&format!("P19 lines: all fourfolds of {} coordinates, every conversion", few.len()), few.len() * few.len(), |c, w| {
        let (a, b) = (few[c / few.len()], few[c % few.len()]);
        for &x in &few {
            for &y in &few {
                let l = [a, b, x, y];
                w.states += 1;
                w.transitions += 20;
                w.traces += 1;
                err(ctx, format!("line {l:?} i64"), guard(|| line::<i64>(l)));
                if l.iter().all(|v| i32::try_from(*v).is_ok()) {
                    w.states += 1;
                    w.traces += 1;
                    let k = l.map(|v| v as i32);
                    err(ctx, format!("line {l:?} i32"), guard(|| line::<i32>(k).and_then(|_| line32(k))));
                }
            }
        }
        w.end();
    });
    let fs = [0.0, -0.0, 1.0, -1.5, 0.1, -1e-30, 1e30, 2147483647.25, -2147483648.75, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, 3.0e-310];
    ctx.explore(&format!("P19 vertices: all pairs of {} coordinates, f64 and f32, site point or not, every conversion", fs.len()), fs.len(), |c, w| {
        for y in fs {
            for site in [false, true] {
                let x = fs[c];
                w.states += 2;
                w.transitions += 28;
                w.traces += 2;
                err(ctx, format!("vertex {x:e} {y:e} f64"), guard(|| {
                    vertex::<f64>(x, y, site)?;
                    let v: Vertex<f64> = Vertex::<f64>::new_3(VertexIndex(7), x, y, site).get();
                    same("glam::DVec2 from Vertex", glam::DVec2::from(v), glam::DVec2::new(x, y))?;
                    same("glam::DVec2 from &Vertex", glam::DVec2::from(&v), glam::DVec2::new(x, y))
                }));
                let (x, y) = (x as f32, y as f32);
                err(ctx, format!("vertex {x:e} {y:e} f32"), guard(|| {
                    vertex::<f32>(x, y, site)?;
                    let v: Vertex<f32> = Vertex::<f32>::new_3(VertexIndex(7), x, y, site).get();
                    same("glam::Vec2 from Vertex", glam::Vec2::from(v), glam::Vec2::new(x, y))?;
                    same("glam::Vec2 from &Vertex", glam::Vec2::from(&v), glam::Vec2::new(x, y))
                }));
            }
        }
    });
    // builders over small inputs: at most two points and two segments that meet at ends only
    let n = if q { 4 } else { 6 };
    let grid: Vec<P> = (0..n).flat_map(|x| (0..3).map(move |y| [1000 * x - 7, 500 * y + x])).collect();
    let segs: Vec<S> = grid.iter().flat_map(|a| grid.iter().filter(move |b| *b != a).map(move |b| [a[0], a[1], b[0], b[1]])).collect();
    ctx.explore(&format!("P19 builders: all sets of up to 2 points and one segment of a {n}x3 grid (also with point pairs on the segment's ends), handed over in 7 kinds of objects, i32 and i64"), segs.len() + 1, |c, w| {
        let seg: Vec<S> = if c == segs.len() { vec![] } else { vec![segs[c]] };
        let free: Vec<P> = grid
            .iter()
            .copied()
            .filter(|p| {
                seg.iter().all(|s| {
                    let (u, v) = ([s[2] - s[0], s[3] - s[1]], [p[0] - s[0], p[1] - s[1]]);
                    u[0] * v[1] != u[1] * v[0] || *p == [s[0], s[1]] || *p == [s[2], s[3]]
                })
            })
            .collect();
        let mut sets: BTreeSet<Vec<P>> = BTreeSet::new();
        sets.insert(vec![]);
        for p in &free {
            sets.insert(vec![*p]);
            for r in &free {
                if r != p {
                    sets.insert(vec![*p, *r]);
                }
            }
        }
        for pts in sets {
            let inp = Input { pts, segs: seg.clone() };
            w.mark(|| inp.text());
            w.states += 1;
            match guard(|| {
                let mut n = builders::<i32>(&inp)? + builders::<i64>(&inp)?;
                // glam has 32 bit integers only
                let want = snap::Snap::of(&input::build::<i32, f64>(&inp)?);
                let g = |x: i64, y: i64| glam::IVec2::new(x as i32, y as i32);
                let d = (|| {
                    Builder::<i32, f64>::default()
                        .with_vertices(inp.pts.iter().map(|p| g(p[0], p[1])))?
                        .with_segments(inp.segs.iter().map(|s| [g(s[0], s[1]), g(s[2], s[3])]))?
                        .build()
                })()
                .map_err(|e: BvError| format!("glam: {e:?}"))?;
                n += 1;
                same("diagram of glam objects", snap::Snap::of(&d), want)?;
                Ok(n)
            }) {
                Ok(n) => {
                    w.transitions += n;
                    w.traces += n;
                }
                Err(e) => ctx.violation(&inp.text(), &e),
            }
        }
        w.end();
    });
    ctx.sample("mint::Point2 { x: -13, y: 2147483647 } -> Point -> mint::Point2".into());
}

fn main() {
    if std::env::var("MC_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    supervise(&prop);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let t = std::fs::read_to_string(&args[3]).expect("cannot read the replay file");
        Some(t.lines().find_map(|l| l.strip_prefix("case=")).expect("no case in the replay file").to_string())
    } else {
        None
    };
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&prop, tier, seed, only)));
    ctx.watchdog(60.0, 12000);
    p19(ctx);
    std::process::exit(ctx.finish());
}
