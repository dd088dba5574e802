//! Case scheduler, violation/hang/crash capture, evidence and replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rng::Rng;

/// Err(text) is an observed violation.
pub type R<T = ()> = Result<T, String>;

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect()
}

/// One execution of a monitor: its generator and what it observed.
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    events: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    sigs: Vec<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
    want_sample: bool,
    log: Vec<String>,
}

impl Case {
    /// Counts observed monitor events.
    pub fn ev(&mut self, name: &'static str, n: u64) { *self.events.entry(name).or_default() += n; }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.maxima.entry(name).or_default();
        *e = (*e).max(n);
    }
    /// Signature of a non-trivial case (distinct ones are counted).
    pub fn sig(&mut self, parts: &[u64]) {
        let mut h = 0xcbf29ce484222325u64;
        for p in parts {
            for b in p.to_le_bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        self.sigs.push(h);
    }
    pub fn sig_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.sigs.push(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.is_empty() {
            self.samples.push(f().chars().take(600).collect());
        }
    }
    /// Trace line, shown with a violation.
    pub fn note(&mut self, s: impl Into<String>) {
        if self.log.len() < 400 {
            let mut s = s.into();
            if s.len() > 4000 {
                let mut cut = 4000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
            }
            self.log.push(s);
        }
    }
    /// A listed defect was observed again (exact signature `id`).
    pub fn known(&mut self, id: &str, what: impl Into<String>) {
        self.known.entry(id.to_string()).or_insert_with(|| what.into());
    }
}

type CaseFn = Arc<dyn Fn(&mut Case) -> R + Send + Sync>;

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    /// Minimal observed events; fewer make the run inconclusive.
    pub required: Vec<(&'static str, u64)>,
    pub assumptions: Vec<&'static str>,
}

impl Prop {
    pub fn new(id: &'static str, rule: &'static str) -> Prop {
        Prop { id, rule, families: vec![], required: vec![], assumptions: vec![] }
    }
    pub fn family(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Case) -> R + Send + Sync + 'static,
    ) -> Prop {
        self.families.push(Family { name, quick, thorough, f: Arc::new(f) });
        self
    }
    pub fn require(mut self, ev: &'static str, n: u64) -> Prop {
        self.required.push((ev, n));
        self
    }
    pub fn assume(mut self, s: &'static str) -> Prop {
        self.assumptions.push(s);
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}

/// Bytes allocated and not yet released by the current thread.
#[cfg(feature = "count")]
mod count {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        pub static LIVE: Cell<i64> = const { Cell::new(0) };
    }
    pub struct Counting;
    fn add(n: i64) { let _ = LIVE.try_with(|l| l.set(l.get() + n)); }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n as i64 - l.size() as i64);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}
#[cfg(feature = "count")]
fn live() -> i64 { count::LIVE.with(|l| l.get()) }
#[cfg(not(feature = "count"))]
fn live() -> i64 { 0 }

/// Runs a case over and over; the bytes each repetition keeps if all of them keep the same.
fn keeps(p: &Prop, fam: usize, idx: u64, seed: u64, thorough: bool) -> Option<i64> {
    let mut kept = vec![];
    for k in 0..6 {
        let before = live();
        drop(run_case(p, fam, idx, seed, thorough, false));
        LAST_PANIC.with(|l| *l.borrow_mut() = None);
        let now = live() - before;
        // the first run may fill what is kept once for all
        if k > 0 {
            if now <= 0 {
                return None;
            }
            kept.push(now);
        }
    }
    kept.iter().all(|k| *k == kept[0]).then_some(kept[0])
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-text panic".into()
        };
        let msg: String = msg.chars().take(700).collect();
        let quiet = LAST_PANIC.try_with(|l| {
            *l.borrow_mut() = Some((loc.clone(), msg.clone()));
            CATCHING.try_with(|c| *c.borrow()).unwrap_or(false)
        });
        if quiet != Ok(true) {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Runs `f`, turning a panic into Err((location, message)).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let was = CATCHING.with(|c| c.replace(true));
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = was);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

/// True when a panic location lies in the monitor's own sources.
pub fn is_ours(loc: &str) -> bool { loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("vmodel/src") }

fn thread_cpu(t: libc::pthread_t) -> f64 {
    unsafe {
        let mut c = 0;
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::pthread_getcpuclockid(t, &mut c) != 0 || libc::clock_gettime(c, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

struct Worker {
    thread: u64,
    case: u64, // (family << 40 | idx) + 1, or 0
    since: f64,
    seq: u64,
}

#[allow(dead_code)]
enum Out {
    Violation(String),
    Harness(String),
}

fn run_case(p: &Prop, fam: usize, idx: u64, seed: u64, thorough: bool, sample: bool) -> (Case, Option<Out>) {
    let f = &p.families[fam];
    let mut case = Case {
        rng: Rng::new(format!("{seed}/{}/{}/{idx}", p.id, f.name).as_bytes()),
        idx,
        thorough,
        events: BTreeMap::new(),
        maxima: BTreeMap::new(),
        sigs: vec![],
        samples: vec![],
        known: BTreeMap::new(),
        want_sample: sample,
        log: vec![],
    };
    let func = f.f.clone();
    let r = catch(|| func(&mut case));
    let out = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(Out::Violation(e)),
        // The workload is deterministic and never does this where the properties hold: an
        // expectation of the monitor about a result was not met.
        Err((loc, msg)) if is_ours(&loc) => Some(Out::Violation(format!("unexpected result, monitor stopped at {loc}: {msg}"))),
        Err((loc, msg)) => Some(Out::Violation(format!("panicked at {loc}: {msg}"))),
    };
    (case, out)
}

/// Deterministic name-addressed entry point used by every monitor binary.
pub fn main(props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(p) = props.into_iter().find(|p| p.id == id) else {
        eprintln!("no such property here: {id}");
        std::process::exit(2)
    };
    install_hook();
    let tier = get("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    if let (Some(f), Some(i)) = (get("--family"), get("--idx")) {
        let fam = p.families.iter().position(|x| x.name == f).expect("family");
        let i: u64 = i.parse().expect("idx");
        // stack of the workers
        let th = std::thread::Builder::new().stack_size(64 << 20);
        let h = th
            .spawn(move || {
                let (case, out) = run_case(&p, fam, i, seed, thorough, true);
                for l in &case.log {
                    println!("  | {l}");
                }
                println!("events: {:?} maxima: {:?}", case.events, case.maxima);
                match out {
                    None => println!("case holds"),
                    Some(Out::Violation(e)) => {
                        println!("VIOLATION property={} replay={}\n{e}", p.id, get2("--replay-path"));
                        std::process::exit(1)
                    }
                    Some(Out::Harness(e)) => {
                        println!("MONITOR ERROR {e}");
                        std::process::exit(2)
                    }
                }
            })
            .unwrap();
        h.join().unwrap();
        return;
    }
    run_all(Arc::new(p), seed, thorough, &get);
}

fn get2(n: &str) -> String {
    let args: Vec<String> = std::env::args().collect();
    args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned().unwrap_or("-".into())
}

fn write_replay(dir: &str, p: &Prop, fam: usize, idx: u64, seed: u64, tier: &str, what: &str, log: &[String]) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{}-{}-{}-{}.json", p.id, p.families[fam].name, seed, idx);
    let v = json!({
        "property": p.id, "family": p.families[fam].name, "idx": idx, "seed": seed, "tier": tier,
        "what": what, "trace": log,
        "cmd": format!("./check {} {} --seed {} --family {} --idx {}", p.id, tier, seed, p.families[fam].name, idx),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn run_all(p: Arc<Prop>, seed: u64, thorough: bool, get: &dyn Fn(&str) -> Option<String>) {
    let tier = if thorough { "thorough" } else { "quick" };
    let evidence = get("--evidence");
    let replays: String = get("--replays").unwrap_or("replays".into());
    let nthreads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let wall_cap = Duration::from_secs(
        get("--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 300 }),
    );
    let cpu_cap: f64 = get("--case-cpu").and_then(|s| s.parse().ok()).unwrap_or(240.0);
    let current_file = get("--current").unwrap_or_default();
    // under a sanitizer: only its reports count, nothing else ends the run early
    let keep_going = std::env::args().any(|a| a == "--keep-going");
    let weigh = std::env::args().any(|a| a == "--weigh");
    let start = Instant::now();

    // Work list: families interleaved proportionally so that a wall cap cuts all of them evenly.
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let counts: Vec<u64> = p
        .families
        .iter()
        .map(|f| match (if thorough { f.thorough } else { f.quick }) as f64 {
            // under a sanitizer the known findings and the few largest cases are left out
            n if keep_going && (f.name == "known" || n < 4.0) => 0,
            n => (n * scale).ceil() as u64,
        })
        .collect();
    let mut work: Vec<(f64, usize, u64)> = vec![];
    for (fi, n) in counts.iter().enumerate() {
        for i in 0..*n {
            work.push(((i as f64 + 0.5) / *n as f64, fi, i));
        }
    }
    work.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let work = Arc::new(work);

    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let evaluated = Arc::new(AtomicU64::new(0));
    let workers: Arc<Vec<Mutex<Worker>>> =
        Arc::new((0..nthreads).map(|_| Mutex::new(Worker { thread: 0, case: 0, since: 0.0, seq: 0 })).collect());
    #[derive(Default)]
    struct Total {
        events: BTreeMap<&'static str, u64>,
        maxima: BTreeMap<&'static str, u64>,
        fam_cases: BTreeMap<&'static str, u64>,
        sigs: HashSet<u64>,
        samples: BTreeMap<&'static str, String>,
        known: BTreeMap<String, String>,
        bad: Vec<(usize, u64, bool, String, Vec<String>)>,
    }
    let total = Arc::new(Mutex::new(Total::default()));
    let cur = if current_file.is_empty() {
        None
    } else {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&current_file).ok().map(Arc::new)
    };

    let mut handles = vec![];
    for w in 0..nthreads {
        let (p, work, next, stop, evaluated, workers, total, cur) = (
            p.clone(),
            work.clone(),
            next.clone(),
            stop.clone(),
            evaluated.clone(),
            workers.clone(),
            total.clone(),
            cur.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let me = unsafe { libc::pthread_self() };
                    let mut local = Total::default();
                    while !stop.load(SeqCst) && start.elapsed() < wall_cap {
                        let k = next.fetch_add(1, SeqCst);
                        let Some((_, fam, idx)) = work.get(k).copied() else { break };
                        {
                            let mut g = workers[w].lock().unwrap();
                            g.thread = me as u64;
                            g.case = ((fam as u64) << 40 | idx) + 1;
                            g.since = thread_cpu(me);
                            g.seq += 1;
                        }
                        if let Some(c) = &cur {
                            let line = format!("{:>30} {:>12}\n", p.families[fam].name, idx);
                            let _ = c.write_at(line.as_bytes(), w as u64 * 44);
                        }
                        let name = p.families[fam].name;
                        let want = !local.samples.contains_key(name);
                        if weigh {
                            *local.events.entry("weighed").or_default() += 1;
                            if let Some(n) = keeps(&p, fam, idx, seed, thorough) {
                                println!("LEAK {name}/{idx}: every repetition keeps {n} bytes");
                            }
                            workers[w].lock().unwrap().case = 0;
                            continue;
                        }
                        let (case, out) = run_case(&p, fam, idx, seed, thorough, want);
                        workers[w].lock().unwrap().case = 0;
                        evaluated.fetch_add(1, SeqCst);
                        *local.fam_cases.entry(name).or_default() += 1;
                        for (k, v) in case.events {
                            *local.events.entry(k).or_default() += v;
                        }
                        for (k, v) in case.maxima {
                            let e = local.maxima.entry(k).or_default();
                            *e = (*e).max(v);
                        }
                        local.sigs.extend(case.sigs);
                        if let Some(s) = case.samples.into_iter().next() {
                            local.samples.entry(name).or_insert(s);
                        }
                        for (k, v) in case.known {
                            local.known.entry(k).or_insert(v);
                        }
                        if let Some(o) = out {
                            let (viol, text) = match o {
                                Out::Violation(t) => (true, t),
                                Out::Harness(t) => (false, t),
                            };
                            if keep_going {
                                *local.events.entry("unmet").or_default() += 1;
                                continue;
                            }
                            local.bad.push((fam, idx, viol, text, case.log));
                            stop.store(true, SeqCst);
                        }
                    }
                    if let Some(c) = &cur {
                        let _ = c.write_at(format!("{:>30} {:>12}\n", "-", 0).as_bytes(), w as u64 * 44);
                    }
                    let mut t = total.lock().unwrap();
                    for (k, v) in local.events {
                        *t.events.entry(k).or_default() += v;
                    }
                    for (k, v) in local.fam_cases {
                        *t.fam_cases.entry(k).or_default() += v;
                    }
                    for (k, v) in local.maxima {
                        let e = t.maxima.entry(k).or_default();
                        *e = (*e).max(v);
                    }
                    t.sigs.extend(local.sigs);
                    for (k, v) in local.samples {
                        t.samples.entry(k).or_insert(v);
                    }
                    for (k, v) in local.known {
                        t.known.entry(k).or_insert(v);
                    }
                    t.bad.extend(local.bad);
                })
                .unwrap(),
        );
    }

    // Watchdog: a single case burning more CPU than cpu_cap does not terminate; normal cases
    // take well below 1/20 of it. A thread that sleeps is never judged.
    let mut seen: Vec<(u64, f64, Instant)> = vec![(0, 0.0, Instant::now()); nthreads];
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(15));
        for w in 0..nthreads {
            let g = workers[w].lock().unwrap();
            if g.case == 0 || handles[w].is_finished() {
                continue;
            }
            let used = thread_cpu(g.thread as libc::pthread_t) - g.since;
            if g.seq != seen[w].0 {
                seen[w] = (g.seq, used, Instant::now());
            } else if used > seen[w].1 + 0.05 {
                seen[w].1 = used;
                seen[w].2 = Instant::now();
            }
            let (fam, idx) = (((g.case - 1) >> 40) as usize, (g.case - 1) & ((1 << 40) - 1));
            if used > cpu_cap {
                let what = format!("a call did not return after {used:.0} s of CPU time (normal: far below 5 s)");
                let path = write_replay(&replays, &p, fam, idx, seed, tier, &what, &[]);
                println!("{}/{idx}: {what}", p.families[fam].name);
                println!("VIOLATION property={} replay={path}", p.id);
                std::process::exit(1);
            }
            if seen[w].2.elapsed() > Duration::from_secs(600) {
                println!("INCONCLUSIVE: case {}/{idx} made no progress for 600 s", p.families[fam].name);
                std::process::exit(2);
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let t = Arc::try_unwrap(total).ok().unwrap().into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let planned: u64 = counts.iter().sum();
    let evals = evaluated.load(SeqCst);

    let mut bad = t.bad;
    bad.sort_by_key(|b| (!b.2, b.0, b.1));
    let nviol = bad.iter().filter(|b| b.2).count();
    let missing: Vec<_> = p
        .required
        .iter()
        .filter(|(e, n)| t.events.get(e).copied().unwrap_or(0) < *n)
        .collect();
    if let Some(ev) = &evidence {
        let samples: Vec<Value> = t.samples.iter().map(|(k, v)| json!({"family": k, "case": v})).collect();
        let v = json!({
            "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": t.sigs.len(),
                "rule": p.rule,
                "samples": samples,
                "cases_by_family": t.fam_cases,
                "planned_cases": planned,
                "observed_events": t.events,
                "observed_maxima": t.maxima,
                "known_findings_observed": t.known.keys().collect::<Vec<_>>(),
                "threads": nthreads,
                "exhaustive": false,
            },
            "assumptions": p.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": nviol,
        });
        if let Some(d) = std::path::Path::new(ev).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(ev, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("evidence file");
    }
    println!(
        "{} {tier} seed={seed}: {evals}/{planned} cases, {} distinct non-trivial, {:.1} s; events {:?}; maxima {:?}",
        p.id,
        t.sigs.len(),
        wall,
        t.events,
        t.maxima
    );
    // Only findings listed in the committed file are tolerated.
    let listed: Vec<String> = get("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default()
        .into_iter()
        .filter(|v| v["property"] == p.id)
        .filter_map(|v| v["id"].as_str().map(str::to_string))
        .collect();
    for (k, v) in &t.known {
        if !listed.contains(k) {
            println!("unlisted finding {k}: {v}");
            let path = write_replay(&replays, &p, 0, 0, seed, tier, v, &[]);
            println!("VIOLATION property={} replay={path}", p.id);
            std::process::exit(1);
        }
        println!("KNOWN-FINDING: property={} {k}: {v}", p.id);
    }
    if let Some((fam, idx, viol, text, log)) = bad.first() {
        println!("case {}/{idx}: {text}", p.families[*fam].name);
        for l in log.iter().rev().take(6).rev() {
            println!("  | {}", l.chars().take(300).collect::<String>());
        }
        if *viol {
            let path = write_replay(&replays, &p, *fam, *idx, seed, tier, text, log);
            println!("VIOLATION property={} replay={path}", p.id);
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        println!("MONITOR ERROR (no verdict)");
        std::process::exit(2);
    }
    if !missing.is_empty() && !keep_going {
        println!("INCONCLUSIVE: too few observed events: {missing:?}");
        std::process::exit(2);
    }
}
