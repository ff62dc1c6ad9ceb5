//! Monitoring runtime: what the stand-ins record, and the faults and delays they inject.
//! Everything is process-global so the code under test needs no hook.
//!
//! No call orders the threads that make it, unless calls are recorded: the atomics are relaxed and
//! what is to fail is copied to each thread. ThreadSanitizer could otherwise not tell a data race
//! of the code under test from accesses that a stand-in's own lock keeps apart.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Debug, Clone, PartialEq)]
pub struct Event {
    pub seq: u64,
    pub thread: u64,
    /// "builtin", "custom", "tag", "set", "probability", "labels"
    pub site: &'static str,
    /// "enter", "exit", "fault"
    pub phase: &'static str,
    /// parser / tagger instance
    pub instance: u64,
    pub detail: String,
}

static RECORD: AtomicBool = AtomicBool::new(false);
static SEQ: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static INSTANCES: AtomicU64 = AtomicU64::new(1);
static THREADS: AtomicU64 = AtomicU64::new(1);
static LOG: Mutex<Vec<Event>> = Mutex::new(Vec::new());
/// fail the call that brings this counter to zero (negative: never)
static FAIL_COUNTDOWN: AtomicI64 = AtomicI64::new(-1);
/// the site, and the text, of the calls that fail
static FAIL: Mutex<(Option<String>, Option<String>)> = Mutex::new((None, None));
/// how often FAIL has changed
static FAIL_VERSION: AtomicU64 = AtomicU64::new(0);
static FAULTS: AtomicU64 = AtomicU64::new(0);
static YIELD_SEED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static THREAD_ID: Cell<u64> = Cell::new(0);
    static FAIL_COPY: std::cell::RefCell<(u64, Option<String>, Option<String>)> = std::cell::RefCell::new((0, None, None));
    static SCRIPTED_TAGS: std::cell::RefCell<Option<Vec<String>>> = std::cell::RefCell::new(None);
}

pub fn thread_id() -> u64 {
    THREAD_ID.with(|t| {
        if t.get() == 0 {
            t.set(THREADS.fetch_add(1, Relaxed));
        }
        t.get()
    })
}

pub fn new_instance() -> u64 {
    INSTANCES.fetch_add(1, Relaxed)
}

pub fn record(on: bool) {
    RECORD.store(on, Relaxed);
}

pub fn take_log() -> Vec<Event> {
    std::mem::replace(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()), vec![])
}

pub fn log<F: FnOnce() -> String>(site: &'static str, phase: &'static str, instance: u64, detail: F) {
    if RECORD.load(Relaxed) {
        let e = Event { seq: SEQ.fetch_add(1, Relaxed), thread: thread_id(), site, phase, instance, detail: detail() };
        LOG.lock().unwrap_or_else(|e| e.into_inner()).push(e);
    }
}

/// Calls that reached a stand-in so far.
pub fn calls() -> u64 {
    CALLS.load(Relaxed)
}

pub fn faults() -> u64 {
    FAULTS.load(Relaxed)
}

/// Make the n-th next call of `site` (any site when None) return an error. n starts at 1.
pub fn fail_nth(site: Option<&str>, n: u64) {
    FAIL.lock().unwrap_or_else(|e| e.into_inner()).0 = site.map(str::to_string);
    FAIL_VERSION.fetch_add(1, Relaxed);
    FAIL_COUNTDOWN.store(n as i64, Relaxed);
}

/// Make every call whose text contains this marker fail.
pub fn fail_text(marker: Option<&str>) {
    FAIL.lock().unwrap_or_else(|e| e.into_inner()).1 = marker.map(str::to_string);
    FAIL_VERSION.fetch_add(1, Relaxed);
}

/// What is to fail, as this thread last copied it.
fn with_fail<T, F: FnOnce(Option<&str>, Option<&str>) -> T>(f: F) -> T {
    FAIL_COPY.with(|c| {
        let mut c = c.borrow_mut();
        let version = FAIL_VERSION.load(Relaxed);
        if c.0 != version {
            let now = FAIL.lock().unwrap_or_else(|e| e.into_inner());
            *c = (version, now.0.clone(), now.1.clone());
        }
        f(c.1.as_deref(), c.2.as_deref())
    })
}

/// The marker of the texts that fail, in a process that cannot be told otherwise.
fn from_environment() -> Option<&'static str> {
    static MARKER: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    MARKER.get_or_init(|| std::env::var("VMON_FAIL_TEXT").ok()).as_deref()
}

pub fn clear_faults() {
    FAIL_COUNTDOWN.store(-1, Relaxed);
    fail_text(None);
}

/// Inject pseudo-random yields and short sleeps at every stand-in call (0: none).
pub fn delays(seed: u64) {
    YIELD_SEED.store(seed, Relaxed);
}

fn maybe_delay() {
    let s = YIELD_SEED.load(Relaxed);
    if s != 0 {
        let mut x = YIELD_SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed) ^ (thread_id() << 32);
        x ^= x >> 31;
        x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^= x >> 29;
        match x % 16 {
            0..=5 => std::thread::yield_now(),
            6 => std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 127)),
            _ => {}
        }
    }
}

/// Called by each stand-in at the start of a call. Err: the injected fault.
pub fn enter(site: &'static str, instance: u64, text: &str) -> Result<(), String> {
    CALLS.fetch_add(1, Relaxed);
    maybe_delay();
    log(site, "enter", instance, || text.to_string());
    let mut fail = false;
    if FAIL_COUNTDOWN.load(Relaxed) > 0 {
        let matches = with_fail(|s, _| s.map_or(true, |s| s == site));
        if matches && FAIL_COUNTDOWN.fetch_sub(1, Relaxed) == 1 {
            FAIL_COUNTDOWN.store(-1, Relaxed);
            fail = true;
        }
    }
    if !fail {
        fail = with_fail(|_, m| m.map_or(false, |m| text.contains(m)));
    }
    if !fail {
        if let Some(m) = from_environment() {
            fail = text.contains(m);
        }
    }
    if fail {
        FAULTS.fetch_add(1, Relaxed);
        log(site, "fault", instance, || text.to_string());
        return Err(format!("injected fault in {} on {:?}", site, text));
    }
    Ok(())
}

pub fn exit<F: FnOnce() -> String>(site: &'static str, instance: u64, detail: F) {
    maybe_delay();
    log(site, "exit", instance, detail);
}

/// Tags the taggers return on this thread instead of decoding their model.
pub fn script_tags(tags: Option<Vec<String>>) {
    SCRIPTED_TAGS.with(|s| *s.borrow_mut() = tags);
}

pub fn scripted_tags() -> Option<Vec<String>> {
    SCRIPTED_TAGS.with(|s| s.borrow().clone())
}
