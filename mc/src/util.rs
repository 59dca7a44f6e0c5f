//! P15: the input file reader. P16: discretization of parabolic edges. P17: bounding boxes.
//! P18: affine transformations. P20: scaled and moved segment lists.
use crate::diag::guard;
use crate::input::*;
use crate::run::*;
use boostvoronoi::prelude::*;
use boostvoronoi::{Aabb2, SimpleAffine};
use boostvoronoi_core::file_reader::{read_boost_input_buffer, read_boost_input_file};
use std::io::{BufReader, Error, ErrorKind, Read};

// ------------------------------------------------------------------------------------ P15
/// What the reader shall return: everything up to the first line that does not fit the format.
fn read_model(lines: &[&str]) -> (Vec<P>, Vec<S>) {
    let (mut pts, mut segs) = (Vec::new(), Vec::new());
    let mut it = lines.iter();
    let mut next = || it.next().map(|l| l.split(' ').collect::<Vec<_>>());
    let count = |t: &[&str]| -> Option<usize> {
        match t {
            [n] => n.parse().ok(),
            _ => None,
        }
    };
    let ints = |t: &[&str], n: usize| -> Option<Vec<i64>> {
        if t.len() != n {
            return None;
        }
        t.iter().map(|x| x.parse::<i32>().ok().map(|v| v as i64)).collect()
    };
    let Some(n) = next().and_then(|t| count(&t)) else { return (pts, segs) };
    while pts.len() < n {
        let Some(p) = next().and_then(|t| ints(&t, 2)) else { return (pts, segs) };
        pts.push([p[0], p[1]]);
    }
    let Some(m) = next().and_then(|t| count(&t)) else { return (pts, segs) };
    while segs.len() < m {
        let Some(s) = next().and_then(|t| ints(&t, 4)) else { return (pts, segs) };
        segs.push([s[0], s[1], s[2], s[3]]);
    }
    (pts, segs)
}

/// A source that hands out at most `step` bytes at a time, is interrupted before every read if
/// asked to, and fails for good once `fail_at` bytes are out.
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    step: usize,
    interrupt: bool,
    interrupted: bool,
    fail_at: Option<usize>,
    reads_after_failure: usize,
    kind: ErrorKind,
    /// fails once, then goes on
    once: bool,
}

impl<'a> Source<'a> {
    fn new(data: &'a [u8], step: usize, interrupt: bool, fail_at: Option<usize>) -> Self {
        Source { data, pos: 0, step, interrupt, interrupted: false, fail_at, reads_after_failure: 0, kind: ErrorKind::Other, once: false }
    }
}

/// every way to fail but Interrupted, which is to be retried
const KINDS: [ErrorKind; 19] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt && !self.interrupted {
            self.interrupted = true;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.interrupted = false;
        let end = self.fail_at.unwrap_or(self.data.len());
        if self.pos >= end && self.fail_at.is_some() {
            self.reads_after_failure += 1;
            if self.reads_after_failure > 1000 {
                panic!("keeps reading from a source that fails");
            }
            if self.once {
                self.fail_at = None;
            }
            return Err(Error::new(self.kind, "device failed"));
        }
        let n = buf.len().min(self.step).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn plain<I: InputType>(r: (Vec<Point<I>>, Vec<Line<I>>)) -> (Vec<P>, Vec<S>) {
    let c = |v: I| -> i64 { v.to_i64().unwrap() };
    (
        r.0.iter().map(|p| [c(p.x), c(p.y)]).collect(),
        r.1.iter().map(|l| [c(l.start.x), c(l.start.y), c(l.end.x), c(l.end.y)]).collect(),
    )
}

fn read_one<I: InputType>(doc: &[u8], want: &(Vec<P>, Vec<S>), step: usize, cap: usize, intr: bool) -> Result<(), String> {
    let r = read_boost_input_buffer::<I, _>(BufReader::with_capacity(cap, Source::new(doc, step, intr, None)));
    match r {
        Ok(r) => {
            let got = plain(r);
            if got != *want {
                return Err(format!("{step} bytes per read: got {got:?}, expected {want:?}"));
            }
            Ok(())
        }
        Err(e) => Err(format!("{step} bytes per read: Err({e:?})")),
    }
}

const LINES: [&str; 22] = [
    "0", "1", "2", "1 2", "-5 70000", "1 2 3 4", "-2147483648 2147483647 0 -1", "", "3", "x", "1 x", "-1", "1 2 3", "2147483648 0",
    "1 2 3 x", " 1 2", "1  2", "18446744073709551615", "+2 -0", "1 2 3 4 5", "18446744073709551616", "1.5 2",
];

fn doc_text(ls: &[&str]) -> String {
    format!("{:?}", ls.join("|"))
}

pub fn p15(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("one space between numbers; a source that fails is one whose read() returns an error other than Interrupted");
    let (n, depth) = (LINES.len(), if q { 4 } else { 5 });
    // documents over all line shapes
    let total: usize = (0..=depth).map(|d| n.pow(d as u32)).sum();
    let docs = |mut k: usize, alpha: &[&'static str]| -> Vec<&'static str> {
        let mut d = 0;
        while k >= alpha.len().pow(d) {
            k -= alpha.len().pow(d);
            d += 1;
        }
        (0..d)
            .map(|_| {
                let l = alpha[k % alpha.len()];
                k /= alpha.len();
                l
            })
            .collect()
    };
    let run = |name: &str, alpha: &[&'static str], total: usize, full: bool| {
        let chunk = 512;
        ctx.explore(name, (total + chunk - 1) / chunk, |c, w| {
            for k in c * chunk..total.min((c + 1) * chunk) {
                let ls = docs(k, alpha);
                let case = doc_text(&ls);
                w.mark(|| case.clone());
                let want = read_model(&ls);
                w.states += 1;
                w.transitions += ls.len() as u64;
                let r = guard(|| {
                    let text = ls.join("\n");
                    read_one::<i32>(text.as_bytes(), &want, 8192, 8192, false)?;
                    let closed = text.clone() + "\n";
                    // without the last line end, an empty last line does not exist
                    read_one::<i32>(closed.as_bytes(), &want, 8192, 8192, false)?;
                    w.traces += 2;
                    if full {
                        read_one::<i64>(closed.as_bytes(), &want, 1, 16, true)?;
                        read_one::<i64>(text.as_bytes(), &want, 3, 2, false)?;
                        let crlf = ls.join("\r\n") + "\r\n";
                        read_one::<i32>(crlf.as_bytes(), &want, 5, 64, false)?;
                        w.traces += 3;
                    }
                    Ok(())
                });
                if let Err(e) = r {
                    ctx.violation(&case, &e);
                }
            }
            w.end();
        });
    };
    run(&format!("P15 all documents of up to {depth} lines over {n} kinds of lines, through sources that split the text in several ways"), &LINES, total, true);
    if ctx.stopped() {
        return;
    }
    let few = &LINES[..if q { 8 } else { 9 }];
    let d2 = if q { 7 } else { 8 };
    run(&format!("P15 all documents of up to {d2} lines over {} kinds of lines", few.len()), few, (0..=d2).map(|d| few.len().pow(d as u32)).sum(), false);
    if ctx.stopped() {
        return;
    }
    // large documents: what is announced and what is there
    let sizes: Vec<usize> = if q { (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097]).collect() } else { (0..=140).chain([255, 256, 257, 1000, 4095, 4096, 4097]).collect() };
    let huge: Vec<usize> = vec![0, 1, 9, 32_767, 32_768, 65_535, 65_536, 65_537, 131_073];
    let mut pairs: Vec<(usize, usize)> = sizes.iter().flat_map(|&a| sizes.iter().map(move |&b| (a, b))).collect();
    pairs.extend(huge.iter().flat_map(|&a| huge.iter().map(move |&b| (a, b))));
    pairs.sort_by_key(|p| std::cmp::Reverse(p.0 + p.1));
    ctx.explore(&format!("P15 documents with every pair of counts of {} and {} kinds, announced exactly, one more, one less, and with lines behind the end", sizes.len(), huge.len()), pairs.len(), |c, w| {
        use std::fmt::Write;
        let (np, ns) = pairs[c];
        let pt = |k: usize| [(k as i64 * 7919) % 200_003 - 100_000, k as i64 - 5];
        let sg = |k: usize| [k as i64, -(k as i64), (k as i64 * 31) % 1009, 2_147_483_647 - k as i64];
        for (ap, al) in [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)] {
            for tail in ["", "1 2 3 4\n", "1 2\n", "3\n"] {
                let (Some(ap), Some(al)) = (np.checked_add_signed(ap), ns.checked_add_signed(al)) else { continue };
                if np + ns > 10_000 && !tail.is_empty() && (ap != np || al != ns) {
                    continue;
                }
                let case = format!("{np} points, announced {ap}, {ns} segments, announced {al}, then {tail:?}");
                w.mark(|| case.clone());
                w.states += 1;
                w.transitions += (np + ns) as u64;
                let r = guard(|| {
                    let mut t = format!("{ap}\n");
                    for k in 0..np {
                        let p = pt(k);
                        let _ = writeln!(t, "{} {}", p[0], p[1]);
                    }
                    let _ = writeln!(t, "{al}");
                    for k in 0..ns {
                        let s = sg(k);
                        let _ = writeln!(t, "{} {} {} {}", s[0], s[1], s[2], s[3]);
                    }
                    t += tail;
                    let ls: Vec<&str> = t.lines().collect();
                    let want = read_model(&ls);
                    let got = plain(read_boost_input_buffer::<i64, _>(BufReader::new(t.as_bytes())).map_err(|e| format!("{e:?}"))?);
                    let at = |a: &(Vec<P>, Vec<S>), b: &(Vec<P>, Vec<S>)| format!("{} points and {} segments, expected {} and {}", a.0.len(), a.1.len(), b.0.len(), b.1.len());
                    if got != want {
                        return Err(format!("got {}", at(&got, &want)));
                    }
                    if ap == np && al == ns && (got.0 != (0..np).map(pt).collect::<Vec<_>>() || got.1 != (0..ns).map(sg).collect::<Vec<_>>()) {
                        return Err("the points or segments are not the ones of the document".into());
                    }
                    Ok(())
                });
                w.traces += 1;
                if let Err(e) = r {
                    ctx.violation(&case, &e);
                }
            }
        }
        w.end();
    });
    if ctx.stopped() {
        return;
    }
    // a source that fails, at every byte
    let docs: Vec<Vec<&'static str>> = vec![
        vec!["2", "1 2", "-5 70000", "2", "1 2 3 4", "-2147483648 2147483647 0 -1"],
        vec!["0", "1", "1 2 3 4"],
        vec!["1", "1 2", "0"],
        vec!["x"],
        vec!["3", "1 2"],
        vec![],
    ];
    ctx.explore("P15 a source that fails for good, at every byte of every document, for reads of 1..64 bytes", docs.len(), |c, w| {
        let text = docs[c].join("\n") + if docs[c].is_empty() { "" } else { "\n" };
        let b = text.as_bytes();
        for at in 0..=b.len() {
            for step in 1..=64 {
                for cap in [1, 7, 8192] {
                    let case = format!("{} fails at byte {at}, {step} bytes per read, buffer {cap}", doc_text(&docs[c]));
                    w.mark(|| case.clone());
                    w.states += 1;
                    w.transitions += 1;
                    w.traces += 1;
                    // a reader may stop before it gets there
                    let whole: Vec<&str> = text[..at].split_inclusive('\n').filter(|l| l.ends_with('\n')).map(|l| l.trim_end_matches('\n')).collect();
                    let want = read_model(&whole);
                    let ends = stops(&whole);
                    let r = guard(|| match read_boost_input_buffer::<i32, _>(BufReader::with_capacity(cap, Source::new(b, step, false, Some(at)))) {
                        Ok(r) if ends => {
                            let got = plain(r);
                            if got != want {
                                return Err(format!("got {got:?}, expected {want:?}"));
                            }
                            Ok(())
                        }
                        Ok(r) => Err(format!("the failure is not reported: Ok({:?})", plain(r))),
                        Err(BvError::BvError(e)) if e.kind() == ErrorKind::Other => Ok(()),
                        Err(e) => Err(format!("the failure is reported as {e:?}")),
                    });
                    if let Err(e) = r {
                        ctx.violation(&case, &e);
                    }
                }
            }
        }
        w.end();
    });
    // the same for every kind of failure, for good or once, at every byte; long documents around every line end
    let mut texts: Vec<(String, bool)> = docs.iter().map(|d| (d.join("\n") + if d.is_empty() { "" } else { "\n" }, true)).collect();
    for (np, ns) in [(70, 70), (0, 150), (150, 0), (300, 3)] {
        let mut t = format!("{np}\n");
        (0..np).for_each(|k| t += &format!("{} {}\n", k * 7919 - 5, -k));
        t += &format!("{ns}\n");
        (0..ns).for_each(|k| t += &format!("{k} {} {} 2147483647\n", -k, k * k));
        texts.push((t, false));
    }
    let nk = KINDS.len();
    ctx.explore(&format!("P15 a source that fails for good or once in each of {nk} ways, at every byte of {} documents, and around every line end of 4 long ones", docs.len()), texts.len() * nk * 2, |c, w| {
        let (text, every) = &texts[c / (2 * nk)];
        let (kind, once) = (KINDS[c / 2 % nk], c % 2 == 1);
        let b = text.as_bytes();
        for at in 0..=b.len() {
            let near = |k: usize| k < b.len() && b[k] == b'\n';
            if !every && !(near(at) || near(at + 1) || (at > 0 && near(at - 1)) || (at > 1 && near(at - 2))) {
                continue;
            }
            let case = format!("document {} fails {} at byte {at} with {kind:?}", c / (2 * nk), if once { "once" } else { "for good" });
            w.mark(|| case.clone());
            let whole: Vec<&str> = text[..at].split_inclusive('\n').filter(|l| l.ends_with('\n')).map(|l| l.trim_end_matches('\n')).collect();
            let want = read_model(&whole);
            let ends = stops(&whole);
            for (step, cap) in [(8192, 8192), (3, 64)] {
                w.states += 1;
                w.transitions += 1;
                w.traces += 1;
                let mut src = Source::new(b, step, false, Some(at));
                (src.kind, src.once) = (kind, once);
                let r = guard(|| match read_boost_input_buffer::<i64, _>(BufReader::with_capacity(cap, src)) {
                    Ok(r) if ends => {
                        let got = plain(r);
                        if got != want {
                            return Err(format!("got {} points and {} segments, expected {} and {}", got.0.len(), got.1.len(), want.0.len(), want.1.len()));
                        }
                        Ok(())
                    }
                    Ok(r) => Err(format!("the failure is not reported: {} points, {} segments", r.0.len(), r.1.len())),
                    Err(BvError::BvError(e)) if e.kind() == kind => Ok(()),
                    Err(e) => Err(format!("the failure is reported as {e:?}")),
                });
                if let Err(e) = r {
                    ctx.violation(&case, &e);
                }
            }
        }
        w.end();
    });
    // what is a number, and what is a line
    let chars = ["0", "1", "9", "-", "+", " ", "\t", "x", ".", "\u{a0}"];
    let len = if q { 4u32 } else { 5 };
    let nl: usize = (0..=len).map(|d| chars.len().pow(d)).sum();
    let string = |mut k: usize| {
        let mut d = 0;
        while k >= chars.len().pow(d) {
            k -= chars.len().pow(d);
            d += 1;
        }
        (0..d).map(|_| { let c = chars[k % chars.len()]; k /= chars.len(); c }).collect::<String>()
    };
    let around: [(&str, &str); 4] = [("", "1 2\n1\n1 2 3 4\n"), ("2\n7 8\n", "1\n1 2 3 4\n"), ("1\n1 2\n", "1 2 3 4\n5 6 7 8\n"), ("0\n3\n5 6 7 8\n", "1 2 3 4\n")];
    let at_place = |line: &str, w: &mut Worker| {
        for (before, after) in around {
            let text = format!("{before}{line}\n{after}");
            let case = format!("text {text:?}");
            w.mark(|| case.clone());
            w.states += 1;
            w.transitions += 1;
            w.traces += 1;
            let ls: Vec<&str> = text.split_terminator('\n').collect();
            let want = read_model(&ls);
            if let Err(e) = guard(|| read_one::<i32>(text.as_bytes(), &want, 8192, 8192, false)) {
                ctx.violation(&case, &e);
            }
        }
    };
    ctx.explore(&format!("P15 every string of up to {len} of the characters {chars:?} in place of each kind of line"), 64, |c, w| {
        for k in (c..nl).step_by(64) {
            at_place(&string(k), w);
        }
        w.end();
    });
    let tokens = ["0", "1", "-1", "+1", "-0", "", "x", "--1", "++1", "-", "2147483647", "2147483648", "-2147483648", "-2147483649", "+2147483647", "00012", "1.0", "1e3", "0x1", "1_0", "\u{663}", "1\t"];
    let (nt, most) = (tokens.len(), if q { 3u32 } else { 4 });
    ctx.explore(&format!("P15 every line of 2 to {most} of the tokens {tokens:?} (4 tokens: some of them equal), in place of each kind of line"), nt * nt, |c, w| {
        let (a, b) = (tokens[c / nt], tokens[c % nt]);
        for t in tokens {
            at_place(&format!("{a} {b} {t}"), w);
            for u in tokens {
                if most == 4 || t == a || u == b {
                    at_place(&format!("{a} {b} {t} {u}"), w);
                }
            }
            at_place(&format!("{t} {a} 1 {b}"), w);
            at_place(&format!("1 2 {a} {b} {t}"), w);
        }
        at_place(&format!("{a} {b}"), w);
        at_place(a, w);
        for at in 0..=2usize {
            let mut l = vec!["7", "8"];
            l.insert(at, a);
            l.insert(at, b);
            at_place(&l.join(" "), w);
        }
        w.end();
    });
    if ctx.stopped() {
        return;
    }
    ctx.explore("P15 a byte that is not UTF-8 in place of every byte of every document", docs.len(), |c, w| {
        let text = docs[c].join("\n") + if docs[c].is_empty() { "" } else { "\n" };
        for at in 0..text.len() {
            if text.as_bytes()[at] == b'\n' {
                continue;
            }
            let mut b = text.clone().into_bytes();
            b[at] = 0xff;
            let case = format!("{} with byte {at} replaced by 0xff", doc_text(&docs[c]));
            w.mark(|| case.clone());
            w.states += 1;
            w.traces += 1;
            let whole: Vec<&str> = text[..at].split_inclusive('\n').filter(|l| l.ends_with('\n')).map(|l| l.trim_end_matches('\n')).collect();
            let want = read_model(&whole);
            let ends = stops(&whole);
            let r = guard(|| match read_boost_input_buffer::<i32, _>(BufReader::new(Source::new(&b, 8192, false, None))) {
                Ok(r) if ends && plain(r.clone()) == want => Ok(()),
                Ok(r) => Err(format!("Ok({:?})", plain(r))),
                Err(BvError::BvError(_)) => Ok(()),
                Err(e) => Err(format!("the failure is reported as {e:?}")),
            });
            if let Err(e) = r {
                ctx.violation(&case, &e);
            }
        }
        w.end();
    });
    // files
    let dir = format!("{}/target/p15-{}", verif_dir(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let nf: usize = (0..=3).map(|d| n.pow(d as u32)).sum();
    ctx.explore("P15 all documents of up to 3 lines in files; no file; a directory", 16, |c, w| {
        for k in (c..nf).step_by(16) {
            let mut ls = Vec::new();
            let (mut k, mut d) = (k, 0);
            while k >= n.pow(d) {
                k -= n.pow(d);
                d += 1;
            }
            for _ in 0..d {
                ls.push(LINES[k % n]);
                k /= n;
            }
            let case = format!("file {}", doc_text(&ls));
            let path = format!("{dir}/{c}.txt");
            std::fs::write(&path, ls.join("\n") + "\n").unwrap();
            let want = read_model(&ls);
            w.states += 1;
            w.traces += 1;
            let r = guard(|| match read_boost_input_file::<i64>(std::path::Path::new(&path)) {
                Ok(r) if plain(r.clone()) == want => Ok(()),
                r => Err(format!("got {r:?}, expected {want:?}")),
            });
            if let Err(e) = r {
                ctx.violation(&case, &e);
            }
        }
        for p in [format!("{dir}/missing"), dir.clone()] {
            w.states += 1;
            w.traces += 1;
            match guard(|| Ok(read_boost_input_file::<i32>(std::path::Path::new(&p)))) {
                Ok(Err(_)) => (),
                r => ctx.violation(if p == dir { "a directory" } else { "a missing file" }, &format!("{r:?}")),
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    ctx.sample("\"1|1 2|1|1 2 3 4\" -> one point, one segment".into());
    ctx.sample("\"2|1 2|x\" -> one point, then the reader stops".into());
}

/// The reader has all it wants after these lines.
fn stops(ls: &[&str]) -> bool {
    // one more line, fitting or not, changes nothing
    let mut a = ls.to_vec();
    ["1 2", "1", "1 2 3 4"].iter().all(|l| {
        a.push(l);
        a.push("1 2 3 4");
        let r = read_model(&a) == read_model(ls);
        a.truncate(ls.len());
        r
    }) && !ls.is_empty()
}

// ------------------------------------------------------------------------------------ P16
/// A parabola in output coordinates: focus `p`, directrix through `a` and `b`.
struct Para {
    p: [f64; 2],
    a: [f64; 2],
    u: [f64; 2],
    /// projection of the focus and its signed distance to the directrix
    fu: f64,
    fh: f64,
}

impl Para {
    fn new(p: [f64; 2], a: [f64; 2], b: [f64; 2]) -> Para {
        let l = (b[0] - a[0]).hypot(b[1] - a[1]);
        let u = [(b[0] - a[0]) / l, (b[1] - a[1]) / l];
        let d = [p[0] - a[0], p[1] - a[1]];
        Para { p, a, u, fu: d[0] * u[0] + d[1] * u[1], fh: d[1] * u[0] - d[0] * u[1] }
    }
    /// position along the directrix
    fn along(&self, q: [f64; 2]) -> f64 {
        (q[0] - self.a[0]) * self.u[0] + (q[1] - self.a[1]) * self.u[1]
    }
    /// distance to the focus minus distance to the directrix
    fn off(&self, q: [f64; 2]) -> f64 {
        let d = [q[0] - self.a[0], q[1] - self.a[1]];
        (q[0] - self.p[0]).hypot(q[1] - self.p[1]) - (d[1] * self.u[0] - d[0] * self.u[1]).abs()
    }
    fn y(&self, t: f64) -> f64 {
        ((t - self.fu).powi(2) + self.fh * self.fh) / (2.0 * self.fh)
    }
    fn at(&self, t: f64) -> [f64; 2] {
        let y = self.y(t);
        [self.a[0] + t * self.u[0] - y * self.u[1], self.a[1] + t * self.u[1] + y * self.u[0]]
    }
    /// greatest distance between the arc over [s, t] and its chord
    fn gap(&self, s: f64, t: f64) -> f64 {
        let (dx, dy) = (t - s, self.y(t) - self.y(s));
        if dx == 0.0 {
            return 0.0;
        }
        dx * dx / (8.0 * self.fh.abs()) * (dx.abs() / dx.hypot(dy))
    }
    /// the same, measured across the directrix
    fn gap_y(&self, s: f64, t: f64) -> f64 {
        (t - s).powi(2) / (8.0 * self.fh.abs())
    }
}

fn to64<F: OutputType>(p: [F; 2]) -> [f64; 2] {
    [p[0].to_f64().unwrap(), p[1].to_f64().unwrap()]
}

/// Discretize the edge from `ends.0` to `ends.1` (output coordinates) and judge the result.
/// `tol` is relative to the size of the coordinates. Returns the number of points.
fn curve_one<I: InputType, F: OutputType>(point: P, seg: S, max: f64, aff: &SimpleAffine<F>, ends: ([F; 2], [F; 2]), tol: f64) -> Result<usize, String> {
    let c = |v: i64| -> I { cast::<i64, I>(v) };
    let pt = Point::<I>::new(c(point[0]), c(point[1]));
    let ln = Line::<I>::new(Point::new(c(seg[0]), c(seg[1])), Point::new(c(seg[2]), c(seg[3])));
    let mut out = vec![ends.0, ends.1];
    boostvoronoi::VoronoiVisualUtils::discretize::<I, F>(&pt, &ln, cast::<f64, F>(max), aff, &mut out);
    let tr = |x: i64, y: i64| to64(aff.transform(cast::<i64, F>(x), cast::<i64, F>(y)));
    let para = Para::new(tr(point[0], point[1]), tr(seg[0], seg[1]), tr(seg[2], seg[3]));
    let o: Vec<[f64; 2]> = out.iter().map(|p| to64(*p)).collect();
    let (e0, e1) = (to64(ends.0), to64(ends.1));
    if o.len() < 2 || o[0] != e0 || o[o.len() - 1] != e1 {
        return Err(format!("the edge from {e0:?} to {e1:?} became {:?}..{:?} with {} points", o.first(), o.last(), o.len()));
    }
    let size = o.iter().chain([&para.p, &para.a]).flat_map(|p| [p[0].abs(), p[1].abs()]).fold(0.0, f64::max);
    // how steep the parabola is at the ends: errors along the directrix grow across it
    let (t0, t1) = (para.along(e0), para.along(e1));
    let steep = 1.0 + ((t0 - para.fu).abs().max((t1 - para.fu).abs()) / para.fh.abs());
    let err = tol * size * steep * steep;
    let dir = if t1 >= t0 { 1.0 } else { -1.0 };
    for (i, q) in o.iter().enumerate() {
        if !q[0].is_finite() || !q[1].is_finite() {
            return Err(format!("point {i} is {q:?}"));
        }
        if i > 0 && i + 1 < o.len() && para.off(*q).abs() > err {
            return Err(format!("point {i} of {} is {q:?}, {:e} off the parabola", o.len(), para.off(*q)));
        }
        if i > 0 {
            let (s, t) = (para.along(o[i - 1]), para.along(*q));
            if (t - s) * dir < -err {
                return Err(format!("point {i} of {} goes back along the segment", o.len()));
            }
            let g = para.gap(s, t);
            if g > max * (1.0 + 1e-6) + err {
                return Err(format!("the edge is {g:e} away from the curve between the points {} and {i} of {}, allowed is {max:e}", i - 1, o.len()));
            }
        }
    }
    if max > 4.0 * err {
        // halving the projection until the chords are close enough
        let k = (0.5 * (para.gap_y(t0, t1) / (max - err)).log2() + 1e-6).ceil().max(0.0);
        if para.gap(t0, t1) < (max - err) * (1.0 - 1e-6) && o.len() != 2 {
            return Err(format!("{} points, but the chord is close enough ({:e} of {max:e})", o.len(), para.gap(t0, t1)));
        }
        if (o.len() - 1) as f64 > 2f64.powf(k) {
            return Err(format!("{} points, {} chords are enough", o.len(), 2f64.powf(k)));
        }
    }
    // the projection of every end is the parameter along the segment
    for e in [ends.0, ends.1] {
        let l = (to64(tr_f(aff, seg[2], seg[3]))[0] - to64(tr_f(aff, seg[0], seg[1]))[0])
            .hypot(to64(tr_f(aff, seg[2], seg[3]))[1] - to64(tr_f(aff, seg[0], seg[1]))[1]);
        let got = boostvoronoi::VoronoiVisualUtils::point_projection::<I, F>(aff, &e, &ln).to_f64().unwrap();
        let want = para.along(to64(e)) / l;
        if !((got - want).abs() <= 1e3 * tol * (1.0 + size / l)) {
            return Err(format!("the projection of {e:?} is {got:e}, expected {want:e}"));
        }
    }
    Ok(o.len())
}

fn tr_f<F: OutputType>(aff: &SimpleAffine<F>, x: i64, y: i64) -> [F; 2] {
    aff.transform(cast::<i64, F>(x), cast::<i64, F>(y))
}

pub fn p16(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("affine transformations with the same scale for both axes; the largest distance is at least 1e-11 of the size of the edge; f32 at 2e-5 relative accuracy, for coordinates up to a few thousand");
    // parabolas over a grid
    let r = if q { 3 } else { 4 };
    let mut dirs: Vec<P> = Vec::new();
    for x in -r..=r {
        for y in -r..=r {
            if (x, y) != (0, 0) {
                dirs.push([x, y]);
            }
        }
    }
    let ts = [-1.0, -0.25, 0.0, 0.125, 0.5, 0.75, 1.0, 1.5];
    let dists = [1e-4, 0.003, 0.05, 0.3, 2.0, 1000.0];
    let mut affs: Vec<SimpleAffine<f64>> = vec![SimpleAffine::default()];
    let mk = |sc: f64, off: [f64; 2]| {
        let mut a = SimpleAffine::<f64>::new::<i32>(&Aabb2::new_from_i32::<i32>(-7, -3, 9, 8), &Aabb2::new_from_i32::<i32>(-50, 20, 80, 100)).unwrap();
        a.scale = [sc, sc];
        a.to_offset = off;
        a
    };
    affs.push(mk(1.0, [0.0, 0.0]));
    affs.push(mk(37.5, [400.0, -300.0]));
    affs.push(mk(0.01, [1.0, 1.0]));
    let mults: &[i64] = &[1, 1000, 1_000_000];
    ctx.explore(&format!("P16 all parabolas with a directrix (dx,dy) and a focus in -{r}..{r}, ends at {} parameters (and the ends of a few ulps distance), {} largest distances, {} transformations, sizes {mults:?}, f64 and f32", ts.len(), dists.len(), affs.len()), dirs.len(), |c, w| {
        let d = dirs[c];
        for f in &dirs {
            if d[0] * f[1] == d[1] * f[0] {
                continue;
            }
            for &m in mults {
                for (ai, aff) in affs.iter().enumerate() {
                    let seg = [11 * m, -5 * m, (11 + d[0]) * m, (-5 + d[1]) * m];
                    let pt = [(11 + f[0]) * m, (-5 + f[1]) * m];
                    let group = format!("point {pt:?} segment {seg:?} transformation {ai}");
                    w.mark(|| group.clone());
                    let tr = |x: i64, y: i64| aff.transform(x as f64, y as f64);
                    let para = Para::new(tr(pt[0], pt[1]), tr(seg[0], seg[1]), tr(seg[2], seg[3]));
                    let len = para.along(tr(seg[2], seg[3]));
                    let mut aff32 = SimpleAffine::<f32>::default();
                    aff32.scale = [aff.scale[0] as f32; 2];
                    aff32.to_offset = [aff.to_offset[0] as f32, aff.to_offset[1] as f32];
                    let para32 = {
                        let tr = |x: i64, y: i64| to64(tr_f(&aff32, x, y));
                        Para::new(tr(pt[0], pt[1]), tr(seg[0], seg[1]), tr(seg[2], seg[3]))
                    };
                    for (i, &s) in ts.iter().enumerate() {
                        for (j, &t) in ts.iter().enumerate() {
                            let (e0, e1) = (para.at(s * len), para.at(t * len));
                            for &dd in &dists {
                                let max = dd * len * 0.2;
                                w.states += 1;
                                w.transitions += 1;
                                w.traces += 1;
                                let r = guard(|| {
                                    let n = if i == j {
                                        let mut v = vec![e0, e0];
                                        let ln = Line::<i64>::new(Point::new(seg[0], seg[1]), Point::new(seg[2], seg[3]));
                                        boostvoronoi::VoronoiVisualUtils::discretize::<i64, f64>(&Point::new(pt[0], pt[1]), &ln, max, aff, &mut v);
                                        if v != vec![e0, e0] {
                                            return Err(format!("an edge without length became {v:?}"));
                                        }
                                        // ends that are a few ulps apart
                                        for k in [1u64, 2, 3, 17] {
                                            let up = |v: f64| f64::from_bits(v.to_bits() + k);
                                            for e1 in [[up(e0[0]), e0[1]], [e0[0], up(e0[1])], [up(e0[0]), up(e0[1])]] {
                                                let _ = curve_one::<i64, f64>(pt, seg, max, aff, (e0, e1), 1e-12)?;
                                                let _ = curve_one::<i64, f64>(pt, seg, max, aff, (e1, e0), 1e-12)?;
                                            }
                                        }
                                        2
                                    } else {
                                        curve_one::<i64, f64>(pt, seg, max, aff, (e0, e1), 1e-12)?
                                    };
                                    if dd >= 0.05 && m == 1 && i != j {
                                        let f = |p: [f64; 2]| [p[0] as f32, p[1] as f32];
                                        let _ = curve_one::<i32, f32>(pt, seg, max, &aff32, (f(para32.at(s * len)), f(para32.at(t * len))), 2e-5)?;
                                    }
                                    Ok(n)
                                });
                                match r {
                                    Ok(n) => w.max("most points of one edge", n as u64),
                                    Err(e) => ctx.violation(&format!("{group} from {s} to {t} distance {max:e}"), &e),
                                }
                            }
                        }
                    }
                }
            }
        }
        w.end();
    });
    if ctx.stopped() {
        return;
    }
    // fine: many points
    let fine: &[f64] = if q { &[1e-7, 1e-9, 1e-11] } else { &[1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11] };
    let small: Vec<P> = (-2..=2).flat_map(|x| (-2..=2).map(move |y| [x, y])).filter(|d| *d != [0, 0]).collect();
    ctx.explore(&format!("P16 fine: directrix and focus in -2..2, sizes 1 and 10^9, largest distances of {fine:?} of the size"), small.len(), |c, w| {
        let d = small[c];
        for f in &small {
            if d[0] * f[1] == d[1] * f[0] {
                continue;
            }
            for m in [1i64, 1_000_000_000] {
                for (s, t) in [(-0.5, 1.0), (1.0, 0.0), (0.25, 0.5)] {
                    for &dd in fine {
                        if dd < 1e-10 && (m != 1 || s != 1.0) {
                            continue;
                        }
                        let aff = SimpleAffine::<f64>::default();
                        let seg = [m, -m, m + d[0] * m, -m + d[1] * m];
                        let pt = [m + f[0] * m, -m + f[1] * m];
                        let fp = |p: [i64; 2]| p.map(|v| v as f64);
                        let para = Para::new(fp(pt), fp([seg[0], seg[1]]), fp([seg[2], seg[3]]));
                        let len = para.along(fp([seg[2], seg[3]]));
                        let case = format!("point {pt:?} segment {seg:?} from {s} to {t} distance {:e}", dd * len);
                        w.mark(|| case.clone());
                        w.states += 1;
                        w.transitions += 1;
                        w.traces += 1;
                        match guard(|| curve_one::<i64, f64>(pt, seg, dd * len, &aff, (para.at(s * len), para.at(t * len)), 1e-13)) {
                            Ok(n) => w.max("most points of one edge", n as u64),
                            Err(e) => ctx.violation(&case, &e),
                        }
                    }
                }
            }
        }
        w.end();
    });
    if ctx.stopped() {
        return;
    }
    // the curved edges of diagrams
    use crate::fam::*;
    use crate::snap::*;
    let fams = if q {
        vec![seg_sets(5, 5, 1, 1, 2), seg_sets(4, 3, 2, 2, 1), seg_sets(3, 3, 3, 3, 1), stars(2, 3, 4)]
    } else {
        vec![seg_sets(5, 5, 1, 1, 2), seg_sets(4, 3, 2, 3, 1), stars(3, 3, 4), blocks(2, 2, 3)]
    };
    let maps = [ID, map(1000, 3001, -17, 3), map(1_000_003, -77, 1_000_000_001, 4)];
    for fam in &fams {
        explore(ctx, fam, &maps, |base, m, w| {
            let inp = base.map(|p| m.p(p));
            let case = case_text(base, m);
            let r = guard(|| (|| {
                let d = build::<i32, f64>(&inp)?;
                let s = Snap::of(&d);
                let mut b = Aabb2::<f64>::default();
                for p in &inp.pts {
                    b.update_i64(p[0], p[1]);
                }
                for l in &inp.segs {
                    b.update_i64(l[0], l[1]);
                    b.update_i64(l[2], l[3]);
                }
                let dest = Aabb2::<f64>::new_from_i32::<i32>(0, 0, 1000, 800);
                let aff = SimpleAffine::<f64>::new::<i32>(&b, &dest)?;
                let mut n = 0;
                for e in &s.edges {
                    if !e.curved {
                        continue;
                    }
                    let (Some(v0), Some(v1)) = (e.v0, s.v1(e.id)) else { continue };
                    let (c0, c1) = (&s.cells[e.cell.unwrap()], &s.cells[s.edges[e.twin.unwrap()].cell.unwrap()]);
                    let (pc, sc) = if c0.cat == Cat::Seg { (c1, c0) } else { (c0, c1) };
                    if sc.cat != Cat::Seg || pc.cat == Cat::Seg {
                        return Err(Fail(format!("the curved edge {} is not between a point and a segment", e.id)));
                    }
                    let np = inp.pts.len();
                    let seg = inp.segs[sc.src - np];
                    let pt = match pc.cat {
                        Cat::Single => inp.pts[pc.src],
                        Cat::Start => [inp.segs[pc.src - np][0], inp.segs[pc.src - np][1]],
                        _ => [inp.segs[pc.src - np][2], inp.segs[pc.src - np][3]],
                    };
                    let end = |v: usize| aff.transform(s.verts[v].x, s.verts[v].y);
                    for max in [0.5, 0.01] {
                        n += curve_one::<i32, f64>(pt, seg, max, &aff, (end(v0), end(v1)), 1e-9).map_err(|t| format!("edge {} with distance {max}: {t}", e.id))? - 2;
                    }
                }
                Ok::<_, Fail>(n)
            })()
            .map_err(|e: Fail| e.0));
            w.traces += 1;
            match r {
                Ok(n) => w.add("points added to the curved edges of diagrams", n as u64),
                Err(e) => ctx.violation(&case, &e),
            }
        });
        if ctx.stopped() {
            return;
        }
    }
}

struct Fail(String);
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail(s)
    }
}
impl From<BvError> for Fail {
    fn from(e: BvError) -> Fail {
        Fail(format!("Err({e:?})"))
    }
}

// ------------------------------------------------------------------------------------ P17
/// A box as the model sees it; None while nothing was added.
type Bx = Option<([f64; 2], [f64; 2])>;

#[derive(Clone, Debug)]
enum Grow {
    Vertex(f64, f64),
    Point(i64, i64),
    Coord(i32, i32),
    I64(i64, i64),
    F64(f64, f64),
    Line(S),
    Percent(i32),
}

fn wider(b: Bx, x: f64, y: f64) -> Bx {
    Some(match b {
        None => ([x, y], [x, y]),
        Some((l, h)) => ([l[0].min(x), l[1].min(y)], [h[0].max(x), h[1].max(y)]),
    })
}

fn grow_model<F: OutputType>(b: Bx, op: &Grow) -> Bx {
    // coordinates are rounded to the type of the box
    let r = |v: f64| cast::<f64, F>(v).to_f64().unwrap();
    let ri = |v: i64| cast::<i64, F>(v).to_f64().unwrap();
    match op {
        Grow::Vertex(x, y) | Grow::F64(x, y) => wider(b, r(*x), r(*y)),
        Grow::Point(x, y) | Grow::I64(x, y) => wider(b, ri(*x), ri(*y)),
        Grow::Coord(x, y) => wider(b, ri(*x as i64), ri(*y as i64)),
        Grow::Line(s) => wider(wider(b, ri(s[0]), ri(s[1])), ri(s[2]), ri(s[3])),
        Grow::Percent(p) => b.map(|(l, h)| {
            let d = (h[0] - l[0]).max(h[1] - l[1]) * (*p as f64) / 100.0;
            ([l[0] - d, l[1] - d], [h[0] + d, h[1] + d])
        }),
    }
}

fn grow_real<F: OutputType>(a: &mut Aabb2<F>, op: &Grow) {
    match op {
        Grow::Vertex(x, y) => a.update_vertex(cast::<f64, F>(*x), cast::<f64, F>(*y)),
        Grow::F64(x, y) => a.update_f64(*x, *y),
        Grow::Point(x, y) => a.update_point(&Point::<i64>::new(*x, *y)),
        Grow::I64(x, y) => a.update_i64(*x, *y),
        Grow::Coord(x, y) => a.update_coordinate::<i32>(*x, *y),
        Grow::Line(s) => a.update_line(&Line::<i64>::from(*s)),
        Grow::Percent(p) => a.grow_percent::<i32>(*p),
    }
}

fn box_agrees<F: OutputType>(a: &Aabb2<F>, m: &Bx, grid: &[P], tol: f64) -> Result<Bx, String> {
    let got = match (a.get_low(), a.get_high()) {
        (None, None) => None,
        (Some(l), Some(h)) => Some((to64(l), to64(h))),
        x => return Err(format!("get_low, get_high are {x:?}")),
    };
    let ok = match (&got, m) {
        (None, None) => true,
        (Some((l, h)), Some((ml, mh))) => (0..2).all(|i| {
            let e = tol * (mh[0] - ml[0]).max(mh[1] - ml[1]).max(ml[i].abs()).max(mh[i].abs());
            (l[i] - ml[i]).abs() <= e && (h[i] - mh[i]).abs() <= e
        }),
        _ => false,
    };
    if !ok {
        return Err(format!("the box is {got:?}, expected {m:?}"));
    }
    // containment, from the limits of the box
    let f = |v: i64| cast::<i64, F>(v).to_f64().unwrap();
    let inside = |p: &P| got.map(|(l, h)| f(p[0]) >= l[0] && f(p[0]) <= h[0] && f(p[1]) >= l[1] && f(p[1]) <= h[1]);
    for p in grid {
        let r = a.contains_point(&Point::<i64>::new(p[0], p[1]));
        if r != inside(p) {
            return Err(format!("contains_point({p:?}) is {r:?} for the box {got:?}"));
        }
    }
    for p in grid.iter().step_by(2) {
        for q in grid.iter().step_by(3) {
            let want = inside(p).map(|x| x && inside(q).unwrap());
            let r = a.contains_line(&Line::<i64>::from([p[0], p[1], q[0], q[1]]));
            if r != want {
                return Err(format!("contains_line({p:?}, {q:?}) is {r:?} for the box {got:?}"));
            }
        }
    }
    Ok(got)
}

fn boxes<F: OutputType>(ctx: &Ctx, name: &str, ops: &[Grow], depth: usize, tol: f64) {
    let grid: Vec<P> = [-2_000_000_000, -3, -2, -1, 0, 1, 2, 4, 70_000].iter().flat_map(|&x| [-3, -2, 0, 1, 3, 1_000_000_000].iter().map(move |&y| [x, y])).collect();
    let starts: Vec<(String, Vec<P>)> = std::iter::once(("default".to_string(), vec![]))
        .chain([[0, 0, 0, 0], [2, -1, -3, 4], [-1, 2, 1, -2], [5, 5, 1, 7]].into_iter().flat_map(|s: S| ["new", "i32"].map(|k| (format!("{k} {s:?}"), vec![[s[0], s[1]], [s[2], s[3]]]))))
        .collect();
    ctx.explore(&format!("P17 {name}: all histories of up to {depth} of {} operations from {} starting boxes, limits and containment after each", ops.len(), starts.len()), starts.len() * ops.len(), |c, w| {
        let (s, first) = (&starts[c / ops.len()], c % ops.len());
        let mk = || -> (Aabb2<F>, Bx) {
            let mut m: Bx = None;
            for p in &s.1 {
                m = wider(m, p[0] as f64, p[1] as f64);
            }
            let a = match s.1.as_slice() {
                [] => Aabb2::default(),
                [p, q] if s.0.starts_with("new") => Aabb2::new(&Point::<i32>::new(p[0] as i32, p[1] as i32), &Point::<i32>::new(q[0] as i32, q[1] as i32)),
                [p, q] => Aabb2::new_from_i32::<i64>(p[0] as i32, p[1] as i32, q[0] as i32, q[1] as i32),
                _ => unreachable!(),
            };
            (a, m)
        };
        let (a, m) = mk();
        if let Err(e) = guard(|| box_agrees(&a, &m, &grid, 0.0)) {
            ctx.violation(&format!("{name} {}", s.0), &e);
            return;
        }
        let mut st = vec![(a, m, Vec::<usize>::new())];
        while let Some((a, m, h)) = st.pop() {
            for k in 0..ops.len() {
                if h.is_empty() && k != first {
                    continue;
                }
                let mut h2 = h.clone();
                h2.push(k);
                let case = || format!("{name} {} {:?}", s.0, h2.iter().map(|k| &ops[*k]).collect::<Vec<_>>());
                w.mark(case);
                w.states += 1;
                w.transitions += 1;
                let mut a2 = a.clone();
                let r = guard(|| {
                    grow_real(&mut a2, &ops[k]);
                    let m2 = grow_model::<F>(m, &ops[k]);
                    let t = if matches!(ops[k], Grow::Percent(_)) { tol } else { 0.0 };
                    let got = box_agrees(&a2, &m2, &grid, t)?;
                    if a2 != a2.clone() || (a2 == a) != (got == m) {
                        return Err("== is wrong".into());
                    }
                    Ok(got)
                });
                match r {
                    Ok(got) => {
                        if h2.len() < depth {
                            st.push((a2, got, h2));
                        } else {
                            w.traces += 1;
                        }
                    }
                    Err(e) => ctx.violation(&case(), &e),
                }
            }
        }
        w.end();
    });
}

pub fn p17(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("finite coordinates; growth by zero or a positive percentage, to the accuracy of f32");
    use Grow::*;
    let ops = vec![
        Vertex(0.5, -1.5), Vertex(-2.0, 3.0), F64(4.0, -0.25), F64(-1.0, -3.0), Point(1, 2), Point(-3, 0), Coord(2, -2), Coord(-1, 1), I64(3, 3), I64(0, -1),
        Line([-1, -1, 2, 2]), Line([2, -3, -2, 1]), Percent(0), Percent(10), Percent(50), Percent(300), Point(70_000, -2_000_000_000), Coord(i32::MIN, i32::MAX),
    ];
    let depth = if q { 5 } else { 6 };
    boxes::<f64>(ctx, "f64", &ops, depth, 1e-6);
    boxes::<f32>(ctx, "f32", &ops, depth - 1, 1e-6);
    let wide = vec![
        I64(1 << 40, -(1 << 52)), I64(i64::MAX, i64::MIN), I64(-2_147_483_649, 2_147_483_648), Point(1 << 45, -3), Point(-(1 << 33) - 1, 1 << 53), F64(0.1, -0.3), F64(16_777_217.0, 1e-9),
        F64(-9_007_199_254_740_991.0, 0.7), Vertex(0.1, 1e15 + 0.5), Vertex(-1e-12, 4_294_967_296.5), Line([1 << 31, -(1 << 31) - 1, 1 << 35, 7]), Line([-1, 1 << 60, -(1 << 60), 2]),
        Coord(i32::MAX, i32::MIN), Percent(1), Percent(33), Percent(100), Percent(12_345),
    ];
    boxes::<f64>(ctx, "f64, wide values", &wide, depth - 1, 1e-6);
    boxes::<f32>(ctx, "f32, wide values", &wide, depth - 2, 1e-6);
    ctx.sample("default, update_vertex(0.5,-1.5), grow_percent(10), update_line(-1,-1,2,2)".into());
}

// ------------------------------------------------------------------------------------ P18
/// The transformation as the model sees it: x -> (x - c) * s + o
#[derive(Clone, Copy, Debug)]
struct Aff {
    c: [f64; 2],
    s: [f64; 2],
    o: [f64; 2],
}

fn aff_agrees<F: OutputType>(a: &SimpleAffine<F>, m: &Aff, pts: &[P], tol: f64, reverse: bool) -> Result<u64, String> {
    let mut n = 0;
    for p in pts {
        let want = [(p[0] as f64 - m.c[0]) * m.s[0] + m.o[0], (p[1] as f64 - m.c[1]) * m.s[1] + m.o[1]];
        let (fx, fy) = (cast::<i64, F>(p[0]), cast::<i64, F>(p[1]));
        let got = a.transform(fx, fy);
        let e: Vec<f64> = (0..2).map(|i| tol * ((p[i].abs() as f64 + m.c[i].abs()) * m.s[i].abs() + m.o[i].abs())).collect();
        for i in 0..2 {
            if !((to64(got)[i] - want[i]).abs() <= e[i]) {
                return Err(format!("transform({p:?}) is {got:?}, expected {want:?}"));
            }
        }
        let all = [
            a.transform_f([fx, fy]),
            [a.transform_x(fx), a.transform_y(fy)],
            [a.transform_fx(fx), a.transform_fy(fy)],
            a.transform_i([p[0], p[1]]),
            [a.transform_ix(p[0]), a.transform_iy(p[1])],
            a.transform_p(&Point::<i64>::new(p[0], p[1])),
        ];
        for (k, o) in all.iter().enumerate() {
            if (0..2).any(|i| !((to64(*o)[i] - want[i]).abs() <= e[i])) {
                return Err(format!("the {k}th spelling of transform({p:?}) is {o:?}, expected {want:?}"));
            }
        }
        n += 7;
        if reverse {
            let r = a.reverse_transform::<i64>(got[0], got[1]);
            let x = a.reverse_transform_x::<i32>(got[0]);
            let y = a.reverse_transform_y::<i64>(got[1]);
            let fits = i32::try_from(p[0]).ok();
            match (&r, &x, &y) {
                (Ok(r), x, Ok(y)) if *r == *p && *y == p[1] && x.as_ref().ok().copied() == fits => (),
                _ => return Err(format!("reverse_transform of {got:?} is {r:?} ({x:?}, {y:?}), the point was {p:?}")),
            }
            // what lies between two points goes to the nearest; half way rounds to a neighbour
            for f in [0.3, -0.3, 0.38, -0.38] {
                let t: Vec<F> = (0..2).map(|i| cast::<f64, F>(to64(got)[i] + f * m.s[i])).collect();
                let r = a.reverse_transform::<i64>(t[0], t[1]);
                let (x, y) = (a.reverse_transform_x::<i64>(t[0]), a.reverse_transform_y::<i64>(t[1]));
                match (&r, &x, &y) {
                    (Ok(r), Ok(x), Ok(y)) if *r == *p && *x == p[0] && *y == p[1] => (),
                    _ => return Err(format!("reverse_transform of {t:?} is {r:?} ({x:?}, {y:?}), {f} from the point {p:?}")),
                }
            }
            n += 15;
        }
    }
    Ok(n)
}

fn affines<F: OutputType>(ctx: &Ctx, name: &str, cs: &[i64], ds: &[i64], depth: usize, tol: f64, big: bool) {
    let pairs = |l: &[i64]| -> Vec<(i64, i64)> { l.iter().flat_map(|a| l.iter().filter(move |b| *b >= a).map(move |b| (*a, *b))).collect() };
    let (sp, dp) = (pairs(cs), pairs(ds));
    let ops: Vec<(&str, f64, f64)> = vec![("zoom", 2.0, 0.0), ("zoom", 0.5, 0.0), ("zoom", 1.25, 0.0), ("zoom", -1.5, 0.0), ("zoom", 4096.0, 0.0), ("pan", 3.0, -20.0), ("offset", -7.0, 11.0), ("scale", 3.0, 1.5)];
    ctx.explore(&format!("P18 {name}: all source boxes over {cs:?} x destination boxes over {ds:?}, then all histories of up to {depth} of zoom, pan, offset, scale; every spelling of the transformation, and back"), sp.len() * sp.len(), |c, w| {
        let (sx, sy) = (sp[c / sp.len()], sp[c % sp.len()]);
        for dx in &dp {
            for dy in &dp {
                let case = format!("{name} source {sx:?} {sy:?} dest {dx:?} {dy:?}");
                w.mark(|| case.clone());
                w.states += 1;
                let r = guard(|| {
                    let mk = |x: (i64, i64), y: (i64, i64)| {
                        let mut b = Aabb2::<F>::default();
                        b.update_i64(x.0, y.0);
                        b.update_i64(x.1, y.1);
                        b
                    };
                    let (sb, db) = (mk(sx, sy), mk(*dx, *dy));
                    let a = SimpleAffine::<F>::new::<i32>(&sb, &db).map_err(|e| format!("new: {e:?}"))?;
                    let d = |p: (i64, i64)| ((p.1 - p.0) as f64).max(10.0);
                    let s = d(*dx).min(d(*dy)) / d(sx).max(d(sy));
                    let mid = |p: (i64, i64)| (p.0 + p.1) as f64 / 2.0;
                    let m = Aff { c: [mid(sx), mid(sy)], s: [s, s], o: [mid(*dx), mid(*dy)] };
                    let mut pts: Vec<P> = vec![[0, 0], [1, -1], [sx.0, sy.0], [sx.1, sy.1], [sx.0, sy.1], [(sx.0 + sx.1) / 2, (sy.0 + sy.1) / 2]];
                    if big {
                        pts.push([sx.0 - 100, sy.1 + 1000]);
                    }
                    // the source box fits into a destination of sufficient size
                    if dx.1 - dx.0 >= 10 && dy.1 - dy.0 >= 10 {
                        for p in [[sx.0, sy.0], [sx.1, sy.1]] {
                            let t = to64(a.transform(cast::<i64, F>(p[0]), cast::<i64, F>(p[1])));
                            let e = 1e3 * tol * (m.o[0].abs() + m.o[1].abs() + d(*dx) + d(*dy) + (m.c[0].abs() + m.c[1].abs()) * s);
                            if t[0] < dx.0 as f64 - e || t[0] > dx.1 as f64 + e || t[1] < dy.0 as f64 - e || t[1] > dy.1 as f64 + e {
                                return Err(format!("the corner {p:?} of the source goes to {t:?}, outside of the destination"));
                            }
                        }
                    }
                    // histories
                    let mut n = 0;
                    let mut st = vec![(a, m, 0, String::new())];
                    while let Some((a, m, k, h)) = st.pop() {
                        // back: an error of half a unit in the source is needed to miss
                        let mag = |i: usize| {
                            let far = pts.iter().map(|p| p[i].abs() as f64).fold(0.0, f64::max) + m.c[i].abs();
                            (far * m.s[i] + 2.0 * m.o[i].abs()) / m.s[i] + far
                        };
                        let back = mag(0).max(mag(1)) * tol < 0.1;
                        n += aff_agrees(&a, &m, &pts, tol, back).map_err(|e| format!("after{h}: {e}"))?;
                        if a.scale.map(|v| v.to_f64().unwrap()).iter().zip(m.s).any(|(x, y)| !((x - y).abs() <= tol * y.abs())) {
                            return Err(format!("after{h}: scale is {:?}, expected {:?}", a.scale, m.s));
                        }
                        if k < depth {
                            for (o, x, y) in &ops {
                                let (mut a, mut m) = (a.clone(), m);
                                let f = |v: f64| cast::<f64, F>(v);
                                match *o {
                                    "zoom" => {
                                        a.zoom(f(*x));
                                        m.s = [m.s[0] * x, m.s[1] * x];
                                    }
                                    "pan" => {
                                        a.to_offset = [a.to_offset[0] + f(*x), a.to_offset[1] + f(*y)];
                                        m.o = [m.o[0] + x, m.o[1] + y];
                                    }
                                    "offset" => {
                                        a.to_offset = [f(*x), f(*y)];
                                        m.o = [*x, *y];
                                    }
                                    _ => {
                                        a.scale = [f(*x), f(*y)];
                                        m.s = [*x, *y];
                                    }
                                }
                                st.push((a, m, k + 1, format!("{h} {o}({x},{y})")));
                            }
                        }
                    }
                    Ok(n)
                });
                match r {
                    Ok(n) => {
                        w.transitions += n;
                        w.traces += 1;
                    }
                    Err(e) => ctx.violation(&case, &e),
                }
            }
        }
        w.end();
    });
}

pub fn p18(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("finite coordinates; accuracy relative to the largest coordinate that takes part (1e-14 for f64, 1e-5 for f32); the inverse where that accuracy leaves less than 0.1 units of the source");
    let depth = if q { 3 } else { 4 };
    let cs: &[i64] = if q { &[-1000, -7, 0, 5, 12, 333, 20_000] } else { &[-1000, -64, -7, 0, 1, 5, 12, 333, 20_000] };
    affines::<f64>(ctx, "f64", cs, &[-50, 0, 8, 640], depth, 1e-14, true);
    affines::<f64>(ctx, "f64 large", &[-2_147_483_648, -1_000_000, 0, 3, 2_147_483_647], &[-300, 17, 800], depth, 1e-14, true);
    affines::<f32>(ctx, "f32", &[-300, -7, 0, 40], &[-50, 0, 8, 640], depth, 1e-6, false);
    // errors and the identity
    ctx.explore("P18 boxes without content; the default; coordinates that do not fit", 1, |_, w| {
        let e = Aabb2::<f64>::default();
        let b = Aabb2::<f64>::new_from_i32::<i32>(0, 0, 100, 100);
        for (n, s, d) in [("source", &e, &b), ("dest", &b, &e), ("both", &e, &e)] {
            w.states += 1;
            w.traces += 1;
            let r = guard(|| Ok(SimpleAffine::<f64>::new::<i32>(s, d)));
            if !matches!(r, Ok(Err(BvError::InternalError(_)))) {
                ctx.violation(&format!("new with no content in {n}"), &format!("{r:?}"));
            }
        }
        let id = Aff { c: [0.0; 2], s: [1.0; 2], o: [0.0; 2] };
        let pts: Vec<P> = vec![[0, 0], [1, -1], [-2_147_483_648, 2_147_483_647], [1 << 40, -(1 << 52)], [123_456_789, -987_654_321]];
        w.states += 1;
        if let Err(e) = guard(|| aff_agrees(&SimpleAffine::<f64>::default(), &id, &pts, 0.0, true)) {
            ctx.violation("default", &e);
        }
        let a = SimpleAffine::<f64>::default();
        for v in [2147483648.0, -2147483649.0, 1e30, -1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2147483647.5] {
            w.states += 1;
            let bad = |r: Result<i32, BvError>| !matches!(r, Err(BvError::NumberConversion(_)));
            let r = guard(|| Ok(bad(a.reverse_transform_x::<i32>(v)) || bad(a.reverse_transform_y::<i32>(v)) || a.reverse_transform::<i32>(v, 0.0).is_ok() || a.reverse_transform::<i32>(0.0, v).is_ok()));
            if r != Ok(false) {
                ctx.violation(&format!("reverse_transform({v}) to i32"), "is not a NumberConversion error");
            }
        }
        for (v, want) in [(2147483647.4, 2147483647), (-2147483648.4, -2147483648i64), (0.49, 0), (-0.49, 0), (1.51, 2), (-1.51, -2), (7.0, 7)] {
            w.states += 1;
            let r = guard(|| Ok(a.reverse_transform::<i32>(v, v).map(|r| [r[0] as i64, r[1] as i64])));
            if !matches!(r, Ok(Ok(x)) if x == [want, want]) {
                ctx.violation(&format!("reverse_transform({v})"), &format!("{r:?}"));
            }
        }
        // as many digits as there are
        let (two52, two53, two63) = ((1i64 << 52) as f64, (1i64 << 53) as f64, 9_223_372_036_854_775_808.0f64);
        let exact: Vec<(f64, Option<i64>)> = vec![
            (0.499_999_999_999_999_94, Some(0)),
            (-0.499_999_999_999_999_94, Some(0)),
            (two52 + 1.0, Some((1 << 52) + 1)),
            (-two52 - 1.0, Some(-(1 << 52) - 1)),
            (two53 - 1.0, Some((1 << 53) - 1)),
            (-two53 + 1.0, Some(-(1 << 53) + 1)),
            (two53 * 2.0 + 4.0, Some((1 << 54) + 4)),
            (two63 - 1024.0, Some(i64::MAX - 1023)),
            (-two63, Some(i64::MIN)),
            (two63, None),
            (-two63 - 2048.0, None),
            (1e-310, Some(0)),
            (-0.0, Some(0)),
        ];
        for (v, want) in exact {
            for sc in [1.0, 0.5, -1.0, 1024.0] {
                w.states += 1;
                let mut a = a.clone();
                a.scale = [sc, sc];
                let (v, want) = (v * sc, want);
                let r = guard(|| Ok((a.reverse_transform::<i64>(v, 0.0).map(|r| r[0]), a.reverse_transform_y::<i64>(v))));
                let ok = match (&r, want) {
                    (Ok((Ok(x), Ok(y))), Some(n)) => *x == n && *y == n,
                    (Ok((Err(BvError::NumberConversion(_)), Err(BvError::NumberConversion(_)))), None) => true,
                    _ => false,
                };
                if !ok {
                    ctx.violation(&format!("scale {sc}: reverse_transform({v:e}) to i64"), &format!("{r:?} instead of {want:?}"));
                }
            }
        }
        // nothing comes back from a scale of zero
        for (x, y) in [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0)] {
            for z in [false, true] {
                w.states += 1;
                let r = guard(|| {
                    let mut a = SimpleAffine::<f64>::default();
                    a.to_offset = [5.0, -7.0];
                    if z {
                        a.zoom(0.0);
                    } else {
                        a.scale = [x, y];
                    }
                    let t = a.transform(3.0, 4.0);
                    let m = if z { [0.0, 0.0] } else { [x, y] };
                    let want = [3.0 * m[0] + 5.0, 4.0 * m[1] - 7.0];
                    let e = (a.reverse_transform::<i32>(t[0], t[1]), a.reverse_transform_x::<i32>(t[0] + 1.0), a.reverse_transform_y::<i32>(t[1] + 1.0));
                    match &e {
                        (Err(BvError::NumberConversion(_)), x, y) if x.is_err() == (m[0] == 0.0) && y.is_err() == (m[1] == 0.0) && t == want => Ok(()),
                        _ => Err(format!("(3, 4) goes to {t:?}, expected {want:?}; back: {e:?}")),
                    }
                });
                if let Err(e) = r {
                    ctx.violation(&format!("scale ({x}, {y}) zoom(0) {z}"), &e);
                }
            }
        }
        let a = SimpleAffine::<f32>::default();
        for (v, want) in [(0.499_999_97f32, 0i32), (8_388_609.0, 8_388_609), (16_777_215.0, 16_777_215), (-8_388_609.0, -8_388_609), (2_147_483_520.0, 2_147_483_520), (-2_147_483_648.0, i32::MIN)] {
            w.states += 1;
            let r = guard(|| Ok(a.reverse_transform::<i32>(v, v)));
            if !matches!(r, Ok(Ok(x)) if x == [want, want]) {
                ctx.violation(&format!("f32 reverse_transform({v:e})"), &format!("{r:?} instead of {want}"));
            }
        }
    });
    ctx.sample("source (-7,12) (0,333) dest (0,640) (-50,8): scale 58/333, then zoom(2) pan(3,-20)".into());
}

// ------------------------------------------------------------------------------------ P20
pub fn p20(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.assume("results that fit the target type (the documented conversion panics otherwise); scaled values are cut towards zero");
    let xs: Vec<i64> = vec![0, 1, -1, 3, -7, 1000, -2_147_483_648, 2_147_483_647, 2, -4, 99, -65_537, 1_000_000_007, 2_147_483_646, -123_456_789, 5];
    let sc = [(1.0, 1.0), (-1.0, 2.0), (0.5, -0.25), (1.0 / 3.0, 0.1), (0.0, 10.0), (1e-3, 0.999), (1e-9, -1e-9), (0.75, 7.0)];
    let off: Vec<i64> = vec![0, 5, -11, 100_000, -1, 1 << 30];
    let n = if q { 8 } else { 16 };
    let lines: Vec<S> = xs[..n].iter().flat_map(|a| xs.iter().flat_map(move |b| [[*a, *b, *b, 7], [*b, -2, *a, *b], [9, *a, -4, *b]])).collect();
    ctx.explore(&format!("P20 {} segments x {} scales x {} offsets, alone and in lists, i32 and i64 both ways", lines.len(), sc.len(), off.len() * off.len()), sc.len() * off.len(), |c, w| {
        let ((sx, sy), dx) = (sc[c / off.len()], off[c % off.len()]);
        for &dy in &off {
            let want: Vec<S> = lines.iter().map(|l| {
                let f = |v: i64, s: f64, d: i64| (v as f64 * s).trunc() as i64 + d;
                [f(l[0], sx, dx), f(l[1], sy, dy), f(l[2], sx, dx), f(l[3], sy, dy)]
            }).collect();
            let fits = |s: &S| s.iter().all(|v| i32::try_from(*v).is_ok());
            // the intermediate product must fit, too
            let mid = |l: &S| fits(&[(l[0] as f64 * sx) as i64, (l[1] as f64 * sy) as i64, (l[2] as f64 * sx) as i64, (l[3] as f64 * sy) as i64]);
            let flat = |v: Vec<Line<i64>>| -> Vec<S> { v.iter().map(|l| [l.start.x, l.start.y, l.end.x, l.end.y]).collect() };
            let flat32 = |v: Vec<Line<i32>>| -> Vec<S> { v.iter().map(|l| [l.start.x as i64, l.start.y as i64, l.end.x as i64, l.end.y as i64]).collect() };
            let case = format!("scale ({sx}, {sy}) offset ({dx}, {dy})");
            w.mark(|| case.clone());
            let r = guard(|| {
                let got = flat(boostvoronoi::to_segments_offset::<i64, i64>(&lines, sx, sy, dx, dy));
                if got != want {
                    let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    return Err(format!("{} of {} segments; segment {:?} became {:?}, expected {:?}", got.len(), want.len(), lines.get(i), got.get(i), want.get(i)));
                }
                let keep: Vec<usize> = (0..lines.len()).filter(|&i| fits(&want[i]) && mid(&lines[i])).collect();
                let l64: Vec<S> = keep.iter().map(|&i| lines[i]).collect();
                let l32: Vec<[i32; 4]> = l64.iter().map(|l| l.map(|v| v as i32)).collect();
                let want: Vec<S> = keep.iter().map(|&i| want[i]).collect();
                if flat32(boostvoronoi::to_segments_offset::<i64, i32>(&l64, sx, sy, dx, dy)) != want
                    || flat32(boostvoronoi::to_segments_offset::<i32, i32>(&l32, sx, sy, dx, dy)) != want
                    || flat(boostvoronoi::to_segments_offset::<i32, i64>(&l32, sx, sy, dx, dy)) != want
                {
                    return Err("differs between i32 and i64".into());
                }
                for k in 0..=3 {
                    if flat(boostvoronoi::to_segments_offset::<i64, i64>(&l64[..k.min(l64.len())], sx, sy, dx, dy)) != want[..k.min(l64.len())] {
                        return Err(format!("a list of {k} segments differs"));
                    }
                }
                Ok(())
            });
            w.states += lines.len() as u64;
            w.transitions += 4 * lines.len() as u64;
            w.traces += lines.len() as u64;
            if let Err(e) = r {
                ctx.violation(&case, &e);
            }
        }
        w.end();
    });
    // long lists, far offsets
    let lens: Vec<usize> = [1usize << 8, 1 << 12, 1 << 16, 1 << 17].iter().flat_map(|n| [n - 1, *n, n + 1]).collect();
    ctx.explore(&format!("P20 lists of {lens:?} segments"), lens.len(), |c, w| {
        let n = lens[c];
        let l: Vec<[i32; 4]> = (0..n as i32).map(|i| [i, -2 * i, 3 * i + 1, 7 - i]).collect();
        let case = format!("a list of {n} segments");
        w.mark(|| case.clone());
        w.states += n as u64;
        w.traces += 1;
        w.transitions += n as u64;
        let r = guard(|| {
            let got = boostvoronoi::to_segments_offset::<i32, i64>(&l, -3.0, 0.5, 1 << 40, -1 << 52);
            let want = |i: i64| {
                let (fx, fy) = (|v: i64| -3 * v + (1i64 << 40), |v: i64| v / 2 - (1i64 << 52));
                [fx(i), fy(-2 * i), fx(3 * i + 1), fy(7 - i)]
            };
            for i in 0..n.max(got.len()) {
                let g = got.get(i).map(|l| [l.start.x, l.start.y, l.end.x, l.end.y]);
                if i >= n || g != Some(want(i as i64)) {
                    return Err(format!("segment {i} of {n} became {g:?}, expected {:?}; {} came out", want(i as i64), got.len()));
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(&case, &e);
        }
        w.end();
    });
    ctx.sample("[1, -7, 1000, 7] * (0.5, -0.25) + (5, -11)".into());
}
