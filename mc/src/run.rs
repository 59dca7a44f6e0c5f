//! Exploration driver: work sharing over all cores, counters, violations, watchdog, evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const MAX_VIOL: usize = 50;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub scopes: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub viol: Mutex<BTreeMap<String, String>>,
    pub stop: AtomicBool,
    /// Some(case): only this case is reported
    pub only: Option<String>,
    pub known: BTreeMap<String, String>,
    pub known_hit: Mutex<BTreeSet<String>>,
    pub threads: usize,
    slots: Vec<Mutex<Option<(Instant, String)>>>,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, only: Option<String>) -> Ctx {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in t.lines() {
                // KNOWN property=<id> case=<case text> :: <what fails>
                if let Some(r) = l.strip_prefix(&format!("KNOWN property={prop} case=")) {
                    if let Some((c, w)) = r.split_once(" :: ") {
                        known.insert(c.trim().to_string(), w.trim().to_string());
                    }
                }
            }
        }
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            extra: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            scopes: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
            viol: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            only,
            known,
            known_hit: Mutex::new(BTreeSet::new()),
            threads,
            slots: (0..threads).map(|_| Mutex::new(None)).collect(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn add(&self, k: &str, n: u64) {
        *self.extra.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }

    pub fn max(&self, k: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let v = e.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }

    pub fn assume(&self, t: &str) {
        self.assumptions.lock().unwrap().push(t.to_string());
    }

    pub fn sample(&self, t: String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(t);
        }
    }

    /// Record a violation. `case` identifies the input or history, and can be replayed.
    pub fn violation(&self, case: &str, what: &str) {
        if self.known.contains_key(case) {
            self.known_hit.lock().unwrap().insert(case.to_string());
            return;
        }
        if self.only.as_ref().map_or(false, |o| o != case) {
            return;
        }
        let mut v = self.viol.lock().unwrap();
        v.entry(case.to_string()).or_insert_with(|| match what.char_indices().nth(1500) {
            Some((k, _)) => format!("{}...", &what[..k]),
            None => what.to_string(),
        });
        if v.len() >= MAX_VIOL {
            self.stop.store(true, Ordering::SeqCst);
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    /// Run `f(chunk, worker)` for every chunk in 0..n, on all cores.
    pub fn explore(&self, scope: &str, n: usize, f: impl Fn(usize, &mut Worker) + Sync) {
        self.scopes.lock().unwrap().push(scope.to_string());
        let t0 = Instant::now();
        let (s0, tr0) = (self.states.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed));
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut w = Worker {
                            ctx: self,
                            id: t,
                            states: 0,
                            transitions: 0,
                            traces: 0,
                            extra: BTreeMap::new(),
                            maxes: BTreeMap::new(),
                            file: std::env::var("MC_SLOTS").ok().and_then(|d| std::fs::File::create(format!("{d}/{t}")).ok()),
                        };
                        loop {
                            let c = next.fetch_add(1, Ordering::Relaxed);
                            if c >= n || self.stopped() {
                                break;
                            }
                            if let Err(e) = crate::diag::guard(|| {
                                f(c, &mut w);
                                Ok(())
                            }) {
                                let case = self.slots[t].lock().unwrap().take().map_or(format!("chunk {c} of {scope}"), |s| s.1);
                                self.violation(&case, &e);
                            }
                        }
                        w.flush();
                    })
                    .unwrap();
            }
        });
        eprintln!(
            "[{}] {:7.2}s scope done in {:6.2}s: {} states, {} traces: {}",
            self.prop,
            self.start.elapsed().as_secs_f64(),
            t0.elapsed().as_secs_f64(),
            self.states.load(Ordering::Relaxed) - s0,
            self.traces.load(Ordering::Relaxed) - tr0,
            scope
        );
    }

    /// Watchdog: a case that runs for more than `limit` seconds, or a process that grows past
    /// `max_mb`, is reported as a violation (non-termination) and ends the run.
    pub fn watchdog(&'static self, limit: f64, max_mb: u64) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let rss_mb = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0)
                / 256;
            let mut worst: Option<(f64, String)> = None;
            for s in &self.slots {
                if let Some((t, c)) = &*s.lock().unwrap() {
                    let e = t.elapsed().as_secs_f64();
                    if worst.as_ref().map_or(true, |w| e > w.0) {
                        worst = Some((e, c.clone()));
                    }
                }
            }
            if let Some((e, c)) = worst {
                if e > limit || (rss_mb > max_mb && e > 1.0) {
                    self.violation(
                        &c,
                        &format!("no answer after {e:.1} s (process at {rss_mb} MB): does not terminate or grows without bound"),
                    );
                    if !self.known.contains_key(&c) {
                        let code = self.finish();
                        std::process::exit(code);
                    }
                }
            }
        });
    }

    /// Write the evidence file and print the verdict; returns the exit code.
    pub fn finish(&self) -> i32 {
        let mut out = String::new();
        let code = self.verdict(&mut out);
        match std::env::var("MC_SLOTS") {
            // the supervisor prints it: the code under test may print, too
            Ok(d) => std::fs::write(format!("{d}/verdict"), out).expect("cannot write the verdict"),
            Err(_) => print!("{out}"),
        }
        code
    }

    fn verdict(&self, out: &mut String) -> i32 {
        use std::fmt::Write;
        let viol = self.viol.lock().unwrap().clone();
        let mut extra = self.extra.lock().unwrap().clone();
        let dir = verif_dir();
        let wall = self.start.elapsed().as_secs_f64();
        if self.only.is_none() {
            let mut cov = serde_json::Map::new();
            cov.insert("states".into(), self.states.load(Ordering::SeqCst).into());
            cov.insert("transitions".into(), self.transitions.load(Ordering::SeqCst).into());
            cov.insert(
                "traces_validated_against_impl".into(),
                self.traces.load(Ordering::SeqCst).into(),
            );
            cov.insert("samples".into(), self.samples.lock().unwrap().clone().into());
            cov.insert("scopes".into(), self.scopes.lock().unwrap().clone().into());
            cov.insert(
                "exhaustive".into(),
                (viol.is_empty() && !self.stopped()).into(),
            );
            for (k, v) in std::mem::take(&mut extra) {
                cov.insert(k, v.into());
            }
            let ev = serde_json::json!({
                "property": self.prop,
                "tier": if self.quick() {"quick"} else {"thorough"},
                "seed": self.seed,
                "level": "model_checking",
                "coverage": cov,
                "assumptions": self.assumptions.lock().unwrap().clone(),
                "wall_s": (wall * 1000.0).round() / 1000.0,
                "violations": viol.len(),
            });
            let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
            std::fs::write(
                format!("{dir}/evidence/{}.json", self.prop),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .expect("cannot write evidence");
        }
        for c in self.known_hit.lock().unwrap().iter() {
            let _ = writeln!(out, "KNOWN-FINDING: property={} case={} :: {}", self.prop, c, self.known[c]);
        }
        if viol.is_empty() {
            if let Some(c) = &self.only {
                let _ = writeln!(out, "OK property={} the case does not fail: {c}", self.prop);
                return 0;
            }
            let _ = writeln!(
                out,
                "OK property={} states={} traces={} wall={:.1}s",
                self.prop,
                self.states.load(Ordering::SeqCst),
                self.traces.load(Ordering::SeqCst),
                wall
            );
            return 0;
        }
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let mut cases: Vec<(&String, &String)> = viol.iter().collect();
        cases.sort_by_key(|c| (c.0.len(), c.0.clone()));
        if self.only.is_some() {
            let _ = writeln!(out, "VIOLATION property={} (replayed)\n  case: {}\n  what: {}", self.prop, cases[0].0, cases[0].1);
            return 1;
        }
        for (n, (case, what)) in cases.iter().enumerate().take(10) {
            let path = format!("{dir}/replays/{}-{}.txt", self.prop, n);
            let _ = std::fs::write(&path, format!("property={}\ncase={}\nwhat={}\n", self.prop, case, what));
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.prop, path);
            let _ = writeln!(out, "  case: {case}\n  what: {what}");
        }
        1
    }
}

pub struct Worker<'a> {
    pub ctx: &'a Ctx,
    pub id: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    extra: BTreeMap<&'static str, u64>,
    maxes: BTreeMap<&'static str, u64>,
    file: Option<std::fs::File>,
}

impl<'a> Worker<'a> {
    /// Announce the case about to be run (for the watchdog, and in case the process dies).
    /// Returns false if the case is to be skipped because another one is being replayed.
    pub fn begin(&self, case: impl FnOnce() -> String) -> bool {
        let case = case();
        if self.ctx.only.as_ref().map_or(false, |o| *o != case) {
            return false;
        }
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("{case}\n").as_bytes(), 0);
        }
        *self.ctx.slots[self.id].lock().unwrap() = Some((Instant::now(), case));
        true
    }
    /// Announce a group of cases; never skipped.
    pub fn mark(&self, group: impl FnOnce() -> String) {
        let g = group();
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("{g}\n").as_bytes(), 0);
        }
        *self.ctx.slots[self.id].lock().unwrap() = Some((Instant::now(), g));
    }
    pub fn end(&self) {
        *self.ctx.slots[self.id].lock().unwrap() = None;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let v = self.maxes.entry(k).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn flush(&mut self) {
        self.end();
        let c = self.ctx;
        c.states.fetch_add(self.states, Ordering::Relaxed);
        c.transitions.fetch_add(self.transitions, Ordering::Relaxed);
        c.traces.fetch_add(self.traces, Ordering::Relaxed);
        for (k, v) in std::mem::take(&mut self.extra) {
            c.add(k, v);
        }
        for (k, v) in std::mem::take(&mut self.maxes) {
            c.max(k, v);
        }
        self.states = 0;
        self.transitions = 0;
        self.traces = 0;
    }
}

/// Run the exploration in a child process. If the child is killed by a signal (stack overflow,
/// abort), the cases that were under way are replayed one by one, and those that kill the
/// child again are violations.
pub fn supervise(prop: &str) {
    use std::process::Command;
    if std::env::var("MC_SLOTS").is_ok() {
        return;
    }
    let dir = format!("{}/target/slots-{}-{}", verif_dir(), prop, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().expect("exe");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let run = |args: &[String]| {
        let mut c = Command::new(&exe);
        let c = c.args(args).env("MC_SLOTS", &dir).stdout(std::process::Stdio::null());
        // the reader under test reports every malformed line
        let c = if prop == "P15" { c.stderr(std::process::Stdio::null()) } else { c };
        c.status().expect("cannot run the explorer")
    };
    let st = run(&args);
    let done = |c: i32| -> ! {
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/verdict")) {
            print!("{t}");
        }
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(c)
    };
    if let Some(c) = st.code() {
        done(c);
    }
    let mut cases = BTreeSet::new();
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for f in rd.flatten().filter(|f| f.file_name() != "verdict") {
            let t = std::fs::read(f.path()).unwrap_or_default();
            let t = String::from_utf8_lossy(&t);
            if let Some(l) = t.lines().next() {
                cases.insert(l.to_string());
            }
        }
    }
    println!("the explorer was ended by {st}; replaying {} cases that were under way", cases.len());
    let rdir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&rdir);
    let mut n = 0;
    for c in cases {
        let path = format!("{rdir}/{prop}-crash-{n}.txt");
        let _ = std::fs::write(&path, format!("property={prop}\ncase={c}\nwhat=the process is killed (stack overflow or abort)\n"));
        let r = run(&[prop.to_string(), "--replay".into(), path.clone()]);
        if r.code() != Some(0) {
            println!("VIOLATION property={prop} replay={path}\n  case: {c}\n  what: the process ends with {r}");
            n += 1;
        }
    }
    if n > 0 {
        let ev = serde_json::json!({"property": prop, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()), "seed": 1,
            "level": "model_checking", "coverage": {"states": n, "transitions": n, "traces_validated_against_impl": n,
            "samples": ["the process was killed by the listed cases"]}, "wall_s": 0.0, "violations": n});
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let _ = std::fs::write(format!("{}/evidence/{prop}.json", verif_dir()), serde_json::to_string_pretty(&ev).unwrap());
        done(1);
    }
    done(2);
}
