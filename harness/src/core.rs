//! Case loop, reporting and evidence shared by all the checks.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, prop: &str, case: u64) -> Rng {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, prop, case).hash(&mut h);
        Rng(h.finish())
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a random subset, in order
    pub fn subset<T: Clone>(&mut self, v: &[T], percent: usize) -> Vec<T> {
        v.iter().filter(|_| self.below(100) < percent).cloned().collect()
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("HARNESS_SHOW_PANICS").is_ok() {
            eprintln!("panic: {} at {}", msg, at);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

/// Runs the code under test; Err is the panic message.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// starts the message of a panic that reports a sound model refused
pub const SOUND: &str = "a sound model is refused: ";

/// The value, or a violation: what loads here is sound.
pub fn sound<T, E: std::fmt::Display>(r: Result<T, E>) -> T {
    r.unwrap_or_else(|e| panic!("{}{}", SOUND, e))
}

pub struct Violation {
    pub key: String,
    pub message: String,
    pub detail: Value,
    pub case: u64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub case: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub scratch: PathBuf,
    pub started: Instant,
    pub deadline: Instant,
    pub detail: Value,
    pub verbose: bool,
    pub worker: u64,
    pub workers: u64,
}

impl Ctx {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    /// One evaluation of the oracle; `nontrivial` is its signature when it is not trivial.
    pub fn eval<T: Hash>(&mut self, nontrivial: Option<T>) {
        self.evaluations += 1;
        if let Some(t) = nontrivial {
            if self.distinct.len() < 400_000 {
                self.distinct.insert(hash_of(&t));
            }
        }
    }
    pub fn sample<F: FnOnce() -> Value>(&mut self, f: F) {
        if self.samples.len() < 3 {
            let v = f();
            self.samples.push(v);
        }
    }
    pub fn fail<S: Into<String>>(&mut self, message: S, detail: Value) {
        self.fail_key("", message, detail)
    }
    pub fn fail_key<S: Into<String>>(&mut self, key: &str, message: S, detail: Value) {
        let message = message.into();
        if self.verbose {
            eprintln!("case {}: {} {}", self.case, message, serde_json::to_string(&detail).unwrap_or_default());
        }
        if self.violations.len() < 20 || !key.is_empty() {
            let v = Violation { key: key.to_string(), message, detail, case: self.case };
            self.violations.push(v);
        }
    }
    pub fn failed(&self) -> bool {
        self.violations.iter().any(|v| v.key.is_empty())
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// a fresh directory below the scratch one
    /// a directory, at times one whose name no text can spell
    pub fn odd_dir(&self, rng: &mut Rng, name: &str) -> PathBuf {
        use std::os::unix::ffi::OsStrExt;
        let d = self.fresh_dir(name);
        if rng.chance(80) {
            return d;
        }
        let d = d.join(std::ffi::OsStr::from_bytes(*rng.pick(&[&b"mod\xe8le"[..], b"\xff\xfe", "mod\u{e8}le d'été".as_bytes(), b" ", b"a\nb", b"-r", b"\xf0\x9f"])));
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    pub fn fresh_dir(&self, name: &str) -> PathBuf {
        let d = self.scratch.join(format!("{}_{}", name, self.case));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

/// the same directory, at times by another path: with a dot, from the current directory, by a link
pub fn spelled(rng: &mut Rng, dir: &Path) -> PathBuf {
    match rng.below(12) {
        0 => dir.join("."),
        1 => {
            let mut p = PathBuf::new();
            for _ in 1..std::env::current_dir().unwrap().components().count() {
                p.push("..");
            }
            p.join(dir.strip_prefix("/").unwrap())
        }
        2 => {
            let link = dir.with_file_name("a link");
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink(dir, &link).unwrap();
            link
        }
        3 => dir.join("..").join(dir.file_name().unwrap()),
        _ => dir.to_path_buf(),
    }
}

pub type CheckFn = fn(&mut Ctx, &mut Rng);

pub struct Check {
    pub id: &'static str,
    pub run: CheckFn,
    /// seconds of case generation
    pub quick_s: u64,
    pub thorough_s: u64,
    /// case limits (0: none)
    pub quick_cases: u64,
    pub thorough_cases: u64,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn known_findings(root: &Path) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (prop, rest) = l.split_once(' ')?;
            let (key, what) = rest.strip_prefix("key=")?.split_once(' ')?;
            Some((prop.to_string(), key.to_string(), what.to_string()))
        })
        .collect()
}

pub struct Args {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub case: Option<u64>,
    pub root: PathBuf,
    pub worker: Option<(u64, u64, PathBuf)>,
    pub seconds: Option<u64>,
    pub workers: Option<u64>,
}

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(resource: i32, limit: *const u64) -> i32;
}

pub fn worker_main(check: &Check, args: &Args) {
    let (i, n, out) = args.worker.clone().unwrap();
    install_panic_hook();
    unsafe {
        // end with the parent; an unbounded allocation ends the process
        prctl(1, 9, 0, 0, 0);
        let limit = [6u64 << 30, 6u64 << 30];
        if !cfg!(any(verif_asan, verif_tsan)) {
            // a sanitizer reserves far more, and has a limit of its own (ASAN_OPTIONS)
            setrlimit(9, limit.as_ptr());
        }
    }
    let scratch = out.with_extension("d");
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    let secs = args.seconds.unwrap_or(if args.thorough { check.thorough_s } else { check.quick_s });
    let limit = if args.thorough { check.thorough_cases } else { check.quick_cases };
    let mut ctx = Ctx {
        prop: check.id.to_string(),
        thorough: args.thorough,
        seed: args.seed,
        case: 0,
        evaluations: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        violations: vec![],
        scratch: scratch.clone(),
        started: Instant::now(),
        deadline: Instant::now() + Duration::from_secs(secs),
        detail: Value::Null,
        verbose: args.case.is_some(),
        worker: i,
        workers: n,
    };
    let progress = out.with_extension("case");
    let mut case = args.case.unwrap_or(i);
    loop {
        if args.case.is_none() && ((limit > 0 && case >= limit) || !ctx.time_left()) {
            break;
        }
        ctx.case = case;
        let _ = std::fs::write(&progress, case.to_string());
        let started = Instant::now();
        let mut rng = Rng::new(args.seed, check.id, case);
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| (check.run)(&mut ctx, &mut rng))) {
            drop(p);
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.contains(" at /repo/") || m.starts_with(SOUND) {
                // of the code under test, in a call the check did not guard
                ctx.fail(format!("panic: {}", m), Value::Null);
                break;
            }
            // a panic that the check did not expect: of the harness itself
            eprintln!("HARNESS-ERROR: case {} of {}: {}", case, check.id, m);
            ctx.count("harness_errors");
            if args.case.is_some() {
                break;
            }
        }
        if started.elapsed().as_secs() >= 3 {
            if std::env::var_os("VERIF_SLOW").is_some() { eprintln!("slow case {} {:?}", case, started.elapsed()); }
            ctx.count("cases_of_three_seconds");
            if std::env::var_os("HARNESS_SHOW_SLOW").is_some() {
                eprintln!("case {} takes {:?}", case, started.elapsed());
            }
        }
        for entry in std::fs::read_dir(&scratch).into_iter().flatten().flatten() {
            let _ = std::fs::remove_dir_all(entry.path());
            let _ = std::fs::remove_file(entry.path());
        }
        vmon::clear_faults();
        vmon::script_tags(None);
        if ctx.failed() || args.case.is_some() {
            break;
        }
        case += n;
    }
    let violations: Vec<Value> = ctx
        .violations
        .iter()
        .map(|v| json!({"key": v.key, "message": v.message, "detail": v.detail, "case": v.case}))
        .collect();
    let report = json!({
        "evaluations": ctx.evaluations,
        "distinct": ctx.distinct.iter().collect::<Vec<_>>(),
        "samples": ctx.samples,
        "counters": ctx.counters,
        "violations": violations,
    });
    std::fs::write(&out, serde_json::to_vec(&report).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
}

/// In memory where there is room for it: each case writes and reads some sixty files.
fn scratch_dir() -> tempfile::TempDir {
    let room = unsafe {
        let mut s: libc::statvfs = std::mem::zeroed();
        libc::statvfs(b"/dev/shm\0".as_ptr() as *const _, &mut s) == 0 && s.f_bavail as u64 * s.f_frsize as u64 > 2 << 30 && s.f_favail > 1 << 16
    };
    let b = || {
        let mut b = tempfile::Builder::new();
        b.prefix("verif_");
        b
    };
    if room {
        if let Ok(d) = b().tempdir_in("/dev/shm") {
            return d;
        }
    }
    b().tempdir().unwrap()
}

/// Spawns the workers, merges what they observed, writes the evidence; the exit code.
pub fn parent_main(check: &Check, args: &Args) -> i32 {
    let start = Instant::now();
    let scratch = scratch_dir();
    let cpus = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    // every other worker runs under ThreadSanitizer, where that is built and starts
    let tsan = std::env::var_os("VERIF_TSAN_EXE").filter(|e| {
        let s = std::process::Command::new(e).arg("alive").stderr(std::process::Stdio::null()).status();
        s.map_or(false, |s| s.success())
    });
    let tsan = tsan.map(PathBuf::from);
    let mut under_tsan = 0;
    let n = args.workers.unwrap_or(if args.case.is_some() { 1 + tsan.is_some() as u64 } else { cpus.clamp(2, 8) });
    let secs = args.seconds.unwrap_or(if args.thorough { check.thorough_s } else { check.quick_s });
    let exe = std::env::current_exe().unwrap();
    let mut children = vec![];
    for i in 0..n {
        let out = scratch.path().join(format!("w{}.json", i));
        let other = i % 2 == 1 && tsan.is_some();
        let mut c = std::process::Command::new(if other { tsan.as_ref().unwrap() } else { &exe });
        under_tsan += other as u64;
        c.arg(check.id).arg("--worker").arg(format!("{}/{}", i, n)).arg(&out);
        c.arg("--seed").arg(args.seed.to_string()).arg("--root").arg(&args.root);
        if args.thorough {
            c.arg("--thorough");
        }
        if let Some(s) = args.seconds {
            c.arg("--seconds").arg(s.to_string());
        }
        if let Some(case) = args.case {
            c.arg("--case").arg(case.to_string());
        }
        // a finding of a sanitizer ends the worker by a signal
        c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3500:allocator_may_return_null=1:detect_stack_use_after_return=1");
        c.env("TSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:history_size=4");
        c.env("TMPDIR", scratch.path().join(format!("tmp{}", i)));
        std::fs::create_dir_all(scratch.path().join(format!("tmp{}", i))).unwrap();
        children.push((out, c.spawn().unwrap(), None));
    }
    // A worker answers a case within milliseconds, seconds at most: a minute and a half in one
    // case is a hang.
    let hang = Duration::from_secs(150);
    let mut progress: Vec<(String, Instant)> = children.iter().map(|_| (String::new(), Instant::now())).collect();
    loop {
        let mut alive = 0;
        let mut stuck = false;
        for (i, (out, c, status)) in children.iter_mut().enumerate() {
            if status.is_none() {
                match c.try_wait().unwrap() {
                    Some(s) => *status = Some(s),
                    None => {
                        alive += 1;
                        let now = std::fs::read_to_string(out.with_extension("case")).unwrap_or_default();
                        if now != progress[i].0 {
                            progress[i] = (now, Instant::now());
                        }
                        stuck |= progress[i].1.elapsed() > hang;
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if stuck {
            // the others get the time to finish
            std::thread::sleep(Duration::from_secs(2));
            for (i, (_, c, status)) in children.iter_mut().enumerate() {
                if status.is_none() {
                    *status = c.try_wait().unwrap();
                }
                if status.is_none() && progress[i].1.elapsed() <= hang {
                    let _ = c.kill();
                    let _ = c.wait();
                    *status = Some(std::os::unix::process::ExitStatusExt::from_raw(0));
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let mut evaluations = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    if under_tsan > 0 {
        counters.insert("workers_under_thread_sanitizer".into(), under_tsan);
    }
    let mut violations: Vec<Value> = vec![];
    for (out, c, status) in children.iter_mut() {
        let case: u64 =
            std::fs::read_to_string(out.with_extension("case")).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        match status {
            None => {
                let _ = c.kill();
                let _ = c.wait();
                violations.push(json!({"key": "", "case": case, "detail": Value::Null,
                    "message": "the code under test did not answer (hang)"}));
            }
            Some(s) if !s.success() => {
                use std::os::unix::process::ExitStatusExt;
                match s.signal() {
                    // SIGKILL is not the code's doing (out of memory guard)
                    Some(9) | None => {
                        eprintln!("HARNESS-ERROR: worker ended with {:?} in case {}", s, case);
                        *counters.entry("harness_errors".into()).or_insert(0) += 1;
                    }
                    Some(sig) => violations.push(json!({"key": "", "case": case, "detail": Value::Null,
                        "message": format!("the code under test crashed the process (signal {})", sig)})),
                }
            }
            Some(_) => {
                let v: Value = match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                    Some(v) => v,
                    None => continue,
                };
                evaluations += v["evaluations"].as_u64().unwrap();
                distinct.extend(v["distinct"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                if samples.len() < 6 {
                    samples.extend(v["samples"].as_array().unwrap().iter().take(2).cloned());
                }
                for (k, x) in v["counters"].as_object().unwrap() {
                    *counters.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
                }
                violations.extend(v["violations"].as_array().unwrap().iter().cloned());
            }
        }
    }
    let known = known_findings(&args.root);
    let mut new: Vec<Value> = vec![];
    let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
    for v in violations {
        let key = v["key"].as_str().unwrap_or("").to_string();
        match known.iter().find(|(p, k, _)| p == check.id && *k == key && !key.is_empty()) {
            Some((_, _, what)) => {
                seen_known.insert(key, what.clone());
            }
            None => new.push(v),
        }
    }
    for (key, what) in &seen_known {
        println!("KNOWN-FINDING: property={} {} [{}]", check.id, what, key);
    }
    let mut coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": check.rule,
        "samples": samples,
        "observed": counters,
    });
    if args.case.is_none() {
        let evidence = json!({
            "property": check.id,
            "tier": if args.thorough { "thorough" } else { "quick" },
            "seed": args.seed,
            "level": "exploration",
            "coverage": coverage.take(),
            "assumptions": check.assumptions,
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": new.len(),
        });
        let dir = args.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:?}, {:.1}s",
        check.id,
        evaluations,
        distinct.len(),
        counters,
        start.elapsed().as_secs_f64()
    );
    if !new.is_empty() {
        let dir = args.root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let mut shown = 0;
        for v in &new {
            let path = dir.join(format!("{}_{}.json", check.id, shown));
            let replay = json!({"property": check.id, "seed": args.seed, "tier": if args.thorough {"thorough"} else {"quick"},
                "case": v["case"], "key": v["key"], "message": v["message"], "detail": v["detail"],
                "how": format!("/verif/run.sh {} --seed {} --case {}", check.id, args.seed, v["case"])});
            std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", check.id, path.display());
            println!("  {}", v["message"].as_str().unwrap_or(""));
            shown += 1;
            if shown >= 3 {
                break;
            }
        }
        return 1;
    }
    let errors = counters.get("harness_errors").cloned().unwrap_or(0);
    if evaluations == 0 || errors > 0 {
        eprintln!("HARNESS-ERROR: {} evaluations, {} harness errors", evaluations, errors);
        return 2;
    }
    0
}
