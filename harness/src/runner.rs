//! Drives one property: generation, checking, shrinking, crash isolation, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngSeed, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// Ordinary thread stack (Rust's default for spawned threads).
const STACK: usize = 2 << 20;

/// Observations made while checking one case.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// Individual comparisons against the oracle.
    pub compared: u64,
}
impl Obs {
    pub fn hit(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn hit_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.hit(l)
        }
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// A property as registered: everything needed to run it.
pub trait Prop: Send + Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str>;
    fn run_worker(&self, job: &Job, w: u64) -> WorkerOut;
    fn replay(&self, case: &Value) -> Verdict;
    /// Regenerate case number `i` of worker `w`, then shrink it with `fails`.
    fn isolate(&self, job: &Job, w: u64, i: u64, fails: &dyn Fn(&Value) -> bool) -> Option<Value>;
}

pub struct P<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// cases in the quick and thorough tiers, over all workers
    pub cases: (u64, u64),
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Verdict,
}

#[derive(Clone)]
pub struct Job {
    pub seed: u64,
    pub thorough: bool,
    pub progress: Option<PathBuf>,
    pub cases: Option<u64>,
}

#[derive(Default, Serialize, serde::Deserialize)]
pub struct WorkerOut {
    pub evaluations: u64,
    pub compared: u64,
    pub nontrivial: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}
/// A case whose own construction failed (a harness error, never a violation).
pub const HARNESS: &str = "harness:";

fn guarded<C>(f: fn(&C, &mut Obs) -> Verdict, c: &C, o: &mut Obs) -> Verdict {
    crate::geomx::set_budget(u64::MAX);
    match catch_unwind(AssertUnwindSafe(|| f(c, o))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.contains(HARNESS) {
                eprintln!("harness error: {m}");
                std::process::exit(3);
            }
            Err(format!("panic: {m}"))
        }
    }
}

fn h64<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn mk_runner(id: &str, seed: u64, w: u64) -> TestRunner {
    let mut c = Config::default();
    c.failure_persistence = None;
    c.rng_seed = RngSeed::Fixed(h64(&(id, seed, w)));
    TestRunner::new(c)
}
static STOP: AtomicBool = AtomicBool::new(false);

impl<C> P<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn share(&self, job: &Job, w: u64) -> u64 {
        let n = job.cases.unwrap_or(if job.thorough { self.cases.1 } else { self.cases.0 });
        n / WORKERS + u64::from(w < n % WORKERS)
    }
}

impl<C> Prop for P<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn assumptions(&self) -> Vec<&'static str> {
        self.assumptions.clone()
    }
    fn run_worker(&self, job: &Job, w: u64) -> WorkerOut {
        use std::os::unix::fs::FileExt;
        let mut out = WorkerOut::default();
        let mut seen = HashSet::new();
        let mut runner = mk_runner(self.id, job.seed, w);
        let strat = (self.strategy)();
        let prog = job
            .progress
            .as_ref()
            .map(|p| std::fs::OpenOptions::new().write(true).open(p).expect("progress file"));
        for i in 0..self.share(job, w) {
            if STOP.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = strat.new_tree(&mut runner).expect("strategy");
            let case = tree.current();
            if let Some(f) = &prog {
                let _ = f.write_at(&(i + 1).to_le_bytes(), w * 8);
            }
            let mut o = Obs::default();
            let t = Instant::now();
            let r = guarded(self.check, &case, &mut o);
            if std::env::var("QT_SLOW").is_ok_and(|v| t.elapsed().as_millis() > v.parse().unwrap()) {
                eprintln!("slow {:?}: {}", t.elapsed(), serde_json::to_string(&case).unwrap());
            }
            out.evaluations += 1;
            out.compared += o.compared;
            for (k, v) in &o.labels {
                *out.labels.entry(k.to_string()).or_insert(0) += v;
            }
            match r {
                Ok(()) => {
                    if o.nontrivial {
                        let js = serde_json::to_string(&case).unwrap();
                        if seen.insert(h64(&js)) && out.samples.len() < 2 && js.len() < 2500 && w < 2 {
                            out.samples.push(serde_json::to_value(&case).unwrap());
                        }
                    }
                }
                Err(m) => {
                    let mut best = (case, m);
                    let (mut budget, since) = (3000, Instant::now());
                    if tree.simplify() {
                        loop {
                            budget -= 1;
                            if budget == 0 || since.elapsed() > Duration::from_secs(45) {
                                break;
                            }
                            let c = tree.current();
                            let more = match guarded(self.check, &c, &mut Obs::default()) {
                                Err(m) => {
                                    best = (c, m);
                                    tree.simplify()
                                }
                                Ok(()) => tree.complicate(),
                            };
                            if !more {
                                break;
                            }
                        }
                    }
                    out.failure = Some((serde_json::to_value(&best.0).unwrap(), best.1));
                    STOP.store(true, Ordering::Relaxed);
                    break;
                }
            }
        }
        if let Some(f) = &prog {
            let _ = f.write_at(&u64::MAX.to_le_bytes(), w * 8);
        }
        out.nontrivial = seen.into_iter().collect();
        out
    }
    fn replay(&self, case: &Value) -> Verdict {
        let c: C = serde_json::from_value(case.clone()).expect("case does not fit the property");
        guarded(self.check, &c, &mut Obs::default())
    }
    fn isolate(&self, job: &Job, w: u64, i: u64, fails: &dyn Fn(&Value) -> bool) -> Option<Value> {
        let mut runner = mk_runner(self.id, job.seed, w);
        let strat = (self.strategy)();
        let mut tree = strat.new_tree(&mut runner).expect("strategy");
        for _ in 1..i {
            tree = strat.new_tree(&mut runner).expect("strategy");
        }
        let js = |c: &C| serde_json::to_value(c).unwrap();
        let mut best = js(&tree.current());
        if !fails(&best) {
            return None;
        }
        let (mut budget, since) = (400, Instant::now());
        if tree.simplify() {
            loop {
                budget -= 1;
                if budget == 0 || since.elapsed() > Duration::from_secs(90) {
                    break;
                }
                let c = js(&tree.current());
                let more = if fails(&c) {
                    best = c;
                    tree.simplify()
                } else {
                    tree.complicate()
                };
                if !more {
                    break;
                }
            }
        }
        Some(best)
    }
}

fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

/// Child process: run all workers and write the merged result.
pub fn child(p: &dyn Prop, job: &Job, out: &Path) {
    install_hook();
    let res: Mutex<Vec<WorkerOut>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (res, job) = (&res, &job);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let o = p.run_worker(job, w);
                    res.lock().unwrap().push(o);
                })
                .unwrap();
        }
    });
    let v = res.into_inner().unwrap();
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
}

/// Child process: replay one case file. Exit 0 holds, 1 fails.
pub fn replay_child(p: &dyn Prop, case: &Value) -> i32 {
    install_hook();
    match on_thread(|| p.replay(case)) {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

enum End {
    Code(i32, String),
    Crash(String),
    Timeout,
    /// One case takes far longer than any should.
    Stall,
    /// An allocation was refused: more than `ulimit` allows was asked for.
    Oom,
    /// Ended from outside.
    Killed,
}
const GREEDY: &str = "a call asks for more memory than the data can need";
const STALL: Duration = Duration::from_secs(180);
fn spawn(args: &[String], limit: Duration) -> End {
    watch(args, limit, None)
}
/// Run this program again; with a progress file, notice when a worker's case does not end.
fn watch(args: &[String], limit: Duration, progress: Option<&Path>) -> End {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    let dir = scratch();
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    let (so, se) = (dir.join(format!("out{n}")), dir.join(format!("err{n}")));
    let mut c = Command::new("bash")
        .args(["-c", "ulimit -v 16000000; ulimit -c 0; exec \"$0\" \"$@\""])
        .arg(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).unwrap())
        .stderr(std::fs::File::create(&se).unwrap())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    let mut moved = vec![(0u64, Instant::now()); WORKERS as usize];
    let mut polled = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if let (Some(p), true) = (progress, polled.elapsed() > Duration::from_secs(2)) {
            polled = Instant::now();
            let b = std::fs::read(p).unwrap();
            for (w, m) in moved.iter_mut().enumerate() {
                let i = u64::from_le_bytes(b[w * 8..w * 8 + 8].try_into().unwrap());
                if m.0 != i {
                    *m = (i, Instant::now());
                } else if i != u64::MAX && m.1.elapsed() > STALL {
                    let _ = c.kill();
                    let _ = c.wait();
                    return End::Stall;
                }
            }
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let err = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).to_string();
    let out = String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).to_string();
    let _ = std::fs::remove_file(&so);
    let _ = std::fs::remove_file(&se);
    match st.code() {
        Some(c) => End::Code(c, format!("{out}{err}")),
        None if err.contains("memory allocation of") => End::Oom,
        None if st.signal() == Some(9) => End::Killed,
        None => End::Crash(format!(
            "process died with signal {}: {}",
            st.signal().unwrap_or(0),
            err.lines().find(|l| l.contains("overflow")).unwrap_or(err.lines().last().unwrap_or(""))
        )),
    }
}

pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("QT_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("qtcheck-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn known(id: &str) -> Vec<Value> {
    let f = verif_root().join("known_findings.json");
    let v: Value = std::fs::read(&f)
        .ok()
        .map(|b| serde_json::from_slice(&b).expect("known_findings.json"))
        .unwrap_or(json!({}));
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|k| k["property"] == id)
        .collect()
}

fn save_replay(id: &str, case: &Value, msg: &str) -> PathBuf {
    let d = verif_root().join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let js = serde_json::to_string(case).unwrap();
    let f = d.join(format!("{id}-{:016x}.json", h64(&js)));
    let v = json!({"property": id, "message": msg, "case": case});
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    f
}

/// Replay a file in a child process. Some(message) when it violates.
fn replay_file(f: &Path) -> Result<Option<String>, String> {
    match spawn(&["replay-child".into(), f.display().to_string()], Duration::from_secs(120)) {
        End::Code(0, _) => Ok(None),
        End::Code(1, m) => Ok(Some(m)),
        End::Code(c, m) => Err(format!("replay exited {c}: {m}")),
        End::Crash(m) => Ok(Some(m)),
        End::Timeout | End::Stall => Ok(Some("a call does not return".into())),
        End::Oom => Ok(Some(GREEDY.into())),
        End::Killed => Err("replay was killed".into()),
    }
}

/// Parent process: run one property. Returns the exit code.
pub fn run(p: &dyn Prop, thorough: bool, seed: u64, cases: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let dir = scratch();
    let ev = verif_root().join("evidence");
    std::fs::create_dir_all(&ev).unwrap();
    let mut violation: Option<(PathBuf, String)> = None;

    // 1. Known findings still listed as findings, then saved inputs
    for k in known(id) {
        println!("KNOWN-FINDING: property={id} {}", k["what"].as_str().unwrap_or(""));
    }
    let mut replayed = 0u64;
    let corpus = verif_root().join("corpus").join(id);
    if let Ok(rd) = std::fs::read_dir(&corpus) {
        let mut fs: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        fs.sort();
        for f in fs.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
            replayed += 1;
            match replay_file(f) {
                Ok(None) => {}
                Ok(Some(m)) => {
                    if violation.is_none() {
                        violation = Some((f.clone(), m));
                    }
                }
                Err(m) => {
                    eprintln!("error: {m}");
                    return 2;
                }
            }
        }
    }

    // 2. Generated search in a child process
    let (resf, prog) = (dir.join("result.json"), dir.join("progress"));
    std::fs::write(&prog, vec![0u8; WORKERS as usize * 8]).unwrap();
    let job = Job { seed, thorough, progress: Some(prog.clone()), cases };
    let mut outs: Vec<WorkerOut> = vec![];
    if violation.is_none() {
        let args = vec![
            "child".to_string(),
            id.to_string(),
            seed.to_string(),
            thorough.to_string(),
            resf.display().to_string(),
            prog.display().to_string(),
            cases.map(|c| c.to_string()).unwrap_or("-".into()),
        ];
        let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 780 });
        match watch(&args, limit, Some(&prog)) {
            End::Code(0, _) => {
                outs = serde_json::from_slice(&std::fs::read(&resf).unwrap()).unwrap();
            }
            End::Code(c, m) => {
                eprintln!("error: search exited {c}: {m}");
                return 2;
            }
            End::Timeout => {
                eprintln!("error: search timed out (inconclusive)");
                return 2;
            }
            End::Killed => {
                eprintln!("error: search was killed (inconclusive)");
                return 2;
            }
            end @ (End::Crash(_) | End::Stall | End::Oom) => {
                let (m, stalled) = match end {
                    End::Crash(m) => (m, false),
                    End::Oom => (GREEDY.to_string(), false),
                    _ => ("a call does not return".to_string(), true),
                };
                // Find the case that kills the process, each candidate in its own process
                let b = std::fs::read(&prog).unwrap();
                let tmp = dir.join("case.json");
                for w in 0..WORKERS {
                    let at = w as usize * 8;
                    let i = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
                    if i == 0 || i == u64::MAX {
                        continue;
                    }
                    let fails = |c: &Value| {
                        std::fs::write(&tmp, json!({"property": id, "case": c}).to_string()).unwrap();
                        // (a worker may also have died while shrinking an ordinary failure)
                        let limit = Duration::from_secs(if stalled { 90 } else { 60 });
                        match spawn(&["replay-child".into(), tmp.display().to_string()], limit) {
                            End::Crash(_) | End::Oom | End::Code(1, _) => true,
                            End::Timeout => stalled,
                            _ => false,
                        }
                    };
                    if let Some(c) = p.isolate(&job, w, i, &fails) {
                        violation = Some((save_replay(id, &c, &m), m.clone()));
                        break;
                    }
                }
                if violation.is_none() {
                    eprintln!("error: the search died ({m}) but no single case reproduces it");
                    return 2;
                }
            }
        }
    }
    let mut nt: HashSet<u64> = HashSet::new();
    let (mut evals, mut compared) = (0, 0);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for o in outs {
        evals += o.evaluations;
        compared += o.compared;
        nt.extend(o.nontrivial);
        for (k, v) in o.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        samples.extend(o.samples);
        if let (Some((c, m)), true) = (o.failure, violation.is_none()) {
            violation = Some((save_replay(id, &c, &m), m));
        }
    }
    samples.truncate(3);
    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nt.len(),
            "oracle_comparisons": compared,
            "saved_inputs_replayed": replayed,
            "rule": p.rule(),
            "distribution": labels,
            "samples": samples,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": u64::from(violation.is_some()),
    });
    std::fs::write(ev.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    match violation {
        Some((f, m)) => {
            println!("{}", m.chars().take(2000).collect::<String>());
            println!("VIOLATION property={id} replay={}", f.display());
            1
        }
        None => {
            println!(
                "OK property={id} cases={evals} nontrivial={} comparisons={compared} saved={replayed} in {:.1}s",
                nt.len(),
                t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}
