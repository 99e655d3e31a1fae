//! Command line, evidence, violations, replays and known findings.
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Known {
    pub key: String,
    pub what: String,
}

struct State {
    counts: BTreeMap<String, u64>,
    extra: BTreeMap<String, String>,
    samples: Vec<String>,
    violations: u64,
    printed: u64,
    known_seen: BTreeMap<String, u64>,
}

pub struct Report {
    pub property: &'static str,
    pub level: &'static str,
    pub tier: String,
    pub seed: u64,
    pub only: Option<String>,
    start: Instant,
    known: Vec<Known>,
    st: Mutex<State>,
    assumptions: Mutex<Vec<String>>,
}

/// Cases in flight, for the watchdog.
static FLIGHT: Mutex<BTreeMap<u64, (Instant, String)>> = Mutex::new(BTreeMap::new());
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

thread_local! {
    static MINE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
    /// Seconds an execution on this thread may take beyond the watchdog's limit.
    pub static PATIENCE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub struct Flight(u64);
impl Drop for Flight {
    fn drop(&mut self) {
        FLIGHT.lock().unwrap().remove(&self.0);
        MINE.with(|m| m.set(u64::MAX));
    }
}
/// A new execution of the case running on this thread begins.
pub fn beat() {
    let n = MINE.with(|m| m.get());
    if n != u64::MAX {
        if let Some(e) = FLIGHT.lock().unwrap().get_mut(&n) {
            e.0 = Instant::now() + std::time::Duration::from_secs(PATIENCE.with(|p| p.get()));
        }
    }
}
/// Announces a case; if it is still running after the watchdog limit, that is reported.
pub fn flight(case: &str) -> Flight {
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    FLIGHT.lock().unwrap().insert(n, (Instant::now(), case.to_string()));
    MINE.with(|m| m.set(n));
    Flight(n)
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

impl Report {
    pub fn new(property: &'static str, level: &'static str) -> &'static Self {
        crate::exec::install_panic_hook();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough".to_string() } else { "quick".to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut only = None;
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            if args[i] == "--case" {
                only = args.get(i + 1).cloned();
                i += 1;
            } else if args[i] == "--replay" {
                let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let line = txt.lines().find(|l| l.starts_with("case: ")).expect("a case line");
                only = Some(line["case: ".len()..].to_string());
                i += 1;
            }
            i += 1;
        }
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
            for l in t.lines() {
                // finding: property=<id> key=<key> :: <what>
                if let Some(r) = l.strip_prefix(&format!("finding: property={property} key=")) {
                    if let Some((k, w)) = r.split_once(" :: ") {
                        known.push(Known { key: k.trim().to_string(), what: w.trim().to_string() });
                    }
                }
            }
        }
        let r: &'static Report = Box::leak(Box::new(Report {
            property,
            level,
            tier,
            seed,
            only,
            start: Instant::now(),
            known,
            st: Mutex::new(State { counts: BTreeMap::new(), extra: BTreeMap::new(), samples: vec![], violations: 0, printed: 0, known_seen: BTreeMap::new() }),
            assumptions: Mutex::new(vec![]),
        }));
        let limit = std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let worst = FLIGHT.lock().unwrap().values().filter(|(t, _)| t.elapsed() > Duration::from_secs(limit)).map(|(_, c)| c.clone()).next();
            if let Some(c) = worst {
                r.fail(&c, "", &format!("one execution did not come to an end within {limit} s"), "");
                r.finish_and_exit();
            }
        });
        r
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// True when this case is to be run (all, or the one being replayed).
    pub fn wants(&self, case: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o == case || o.starts_with(&format!("{case}/")) || o.starts_with(&format!("{case} ")),
        }
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn add(&self, key: &str, n: u64) {
        *self.st.lock().unwrap().counts.entry(key.into()).or_insert(0) += n;
    }
    pub fn max(&self, key: &str, n: u64) {
        let mut s = self.st.lock().unwrap();
        let e = s.counts.entry(key.into()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn note(&self, key: &str, text: &str) {
        self.st.lock().unwrap().extra.insert(key.into(), esc(text));
    }
    pub fn flag(&self, key: &str, b: bool) {
        self.st.lock().unwrap().extra.insert(key.into(), b.to_string());
    }
    pub fn sample(&self, s: &str) {
        let mut st = self.st.lock().unwrap();
        if st.samples.len() < 12 {
            st.samples.push(s.chars().take(900).collect());
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn violations(&self) -> u64 {
        self.st.lock().unwrap().violations
    }
    /// Stop exploring once this many violations are reported.
    pub fn saturated(&self) -> bool {
        self.violations() >= 5
    }
    /// Reports a failed case.  `key` names the finding class for the known-findings file.
    pub fn fail(&self, case: &str, key: &str, what: &str, detail: &str) {
        let mut st = self.st.lock().unwrap();
        if !key.is_empty() {
            if let Some(k) = self.known.iter().find(|k| k.key == key) {
                let n = st.known_seen.entry(k.key.clone()).or_insert(0);
                *n += 1;
                if *n == 1 {
                    println!("KNOWN-FINDING: property={} {}", self.property, k.what);
                }
                return;
            }
        }
        st.violations += 1;
        if st.printed >= 5 {
            return;
        }
        st.printed += 1;
        let dir = format!("{}/evidence/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.txt", self.property, st.printed);
        let txt = format!(
            "property: {}\ncase: {}\ntier: {}\nseed: {}\nfinding-key: {}\nwhat: {}\nreplay with: ./check {} {} --replay {}\n{}\n",
            self.property, case, self.tier, self.seed, key, what, self.property, self.tier, path, detail
        );
        let _ = std::fs::write(&path, txt);
        println!("VIOLATION property={} replay={}", self.property, path);
        println!("  case: {case}\n  {what}");
        let _ = std::io::stdout().flush();
    }
    fn write_evidence(&self) {
        let st = self.st.lock().unwrap();
        let mut cov = vec![];
        for (k, v) in &st.counts {
            cov.push(format!("{}: {}", esc(k), v));
        }
        for (k, v) in &st.extra {
            cov.push(format!("{}: {}", esc(k), v));
        }
        cov.push(format!("\"samples\": [{}]", st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
        if !st.known_seen.is_empty() {
            cov.push(format!("\"known_findings_observed\": {}", st.known_seen.values().sum::<u64>()));
        }
        let ass = self.assumptions.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
        let txt = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            esc(self.property), esc(&self.tier), self.seed, esc(self.level), cov.join(", "), ass, self.elapsed(), st.violations
        );
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.property), txt).expect("evidence is writable");
    }
    pub fn finish_and_exit(&self) -> ! {
        if !self.replaying() {
            self.write_evidence();
        }
        let v = self.violations();
        if self.replaying() || std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("{:?}", self.st.lock().unwrap().counts);
        }
        println!("{} {}: {} violations, {:.1} s", self.property, self.tier, v, self.elapsed());
        let _ = std::io::stdout().flush();
        std::process::exit(if v > 0 { 1 } else { 0 });
    }
}

pub type Job = (String, Box<dyn Fn(&Report) -> Result<(), String> + Send + Sync>);

/// Runs named jobs in parallel; each returns the first violation it meets.
pub fn run_jobs(rep: &'static Report, jobs: Vec<Job>) {
    run_jobs_on(rep, jobs, 8)
}
/// The same on so many threads (for jobs that mostly wait).
pub fn run_jobs_on(rep: &'static Report, jobs: Vec<Job>, threads: usize) {
    let jobs: Vec<Job> = jobs.into_iter().filter(|j| rep.wants(&j.0)).collect();
    if jobs.is_empty() {
        eprintln!("no case matches");
        std::process::exit(2);
    }
    rep.add("cases", jobs.len() as u64);
    let trace = std::env::var("VERIF_TRACE").is_ok();
    crate::exec::parallel(jobs.len(), threads, |i| {
        if rep.saturated() {
            return;
        }
        let (name, f) = &jobs[i];
        let _fl = flight(name);
        let t = Instant::now();
        match crate::exec::guard(|| f(rep)) {
            Ok(Ok(())) => {}
            Ok(Err(what)) => {
                // "[key] text" names the finding class
                match what.strip_prefix('[').and_then(|r| r.split_once("] ")) {
                    Some((k, w)) => rep.fail(name, k, w, ""),
                    None => rep.fail(name, "", &what, ""),
                }
            }
            Err(p) => {
                // a panic outside the code under test's own futures
                rep.fail(name, "", &format!("panic: {p}"), "");
            }
        }
        if trace {
            eprintln!("{name}: {:.2}s", t.elapsed().as_secs_f64());
        }
    });
    for j in jobs.iter().step_by((jobs.len() / 8).max(1)) {
        rep.sample(&j.0);
    }
}
