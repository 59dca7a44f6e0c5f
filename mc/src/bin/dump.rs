#[path="../input.rs"] mod input; #[path="../snap.rs"] mod snap; #[path="../topo.rs"] mod topo; #[path="../refseg.rs"] mod refseg; #[path="../segs.rs"] mod segs;
fn main(){
    let t = std::env::args().nth(1).unwrap();
    let inp = input::Input::parse(&t).unwrap();
    let d = if std::env::args().nth(2).is_some() {input::build::<i64,f64>(&inp)} else {input::build::<i32,f64>(&inp)};
    match d { Err(e) => println!("{e}"), Ok(d) => {
        let s = snap::Snap::of(&d);
        for c in &s.cells { println!("cell {} src {} {:?} inc {:?}", c.id, c.src, c.cat, c.inc); }
        for v in &s.verts { println!("vert {} {:?} {:?} inc {:?} site {}", v.id, v.x, v.y, v.inc, v.site); }
        for e in &s.edges { println!("edge {} cell {:?} twin {:?} next {:?} prev {:?} v0 {:?} v1 {:?} lin {} prim {}", e.id, e.cell, e.twin, e.next, e.prev, e.v0, s.v1(e.id), e.linear, e.primary); }
        println!("{:?}", topo::check(&s));
        println!("{:?}", segs::compare(&inp, &s, 1e-9, true).err());
    }}
}
