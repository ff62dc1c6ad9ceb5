//! Checks of the C interface, called from C through the repository's header (shim.c).
use crate::alloc;
use crate::core::*;
use crate::engine_checks::*;
use crate::load_checks::{entries_of, zip_of, TOPS};
use crate::world::*;
use serde_json::{json, Value};
use snips_nlu_ontology::*;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::path::Path;
use std::sync::{Arc, Barrier};

// what makes the exported symbols part of the binary
use snips_nlu_ffi as _;

extern "C" {
    fn shim_create_dir(path: *const c_char, out: *mut *mut c_void) -> c_int;
    fn shim_create_zip(zip: *const u8, size: c_uint, out: *mut *mut c_void) -> c_int;
    fn shim_destroy_client(client: *mut c_void) -> c_int;
    fn shim_last_error(out: *mut *mut c_void) -> c_int;
    fn shim_version(out: *mut *mut c_void) -> c_int;
    fn shim_destroy_string(s: *mut c_void) -> c_int;
    fn shim_call(
        op: c_int,
        engine: *const c_void,
        text: *const c_char,
        intent: *const c_char,
        white: *const *const c_char,
        nwhite: c_int,
        black: *const *const c_char,
        nblack: c_int,
        intents: c_uint,
        slots: c_uint,
        out: *mut *mut c_void,
    ) -> c_int;
    fn shim_destroy(op: c_int, p: *mut c_void) -> c_int;
    fn shim_dump(op: c_int, p: *const c_void) -> *mut c_char;
    fn shim_free(p: *mut c_char);
}

pub const OPS: [&str; 10] = [
    "run_parse",
    "run_parse_with_alternatives",
    "run_get_slots",
    "run_get_slots_with_alternatives",
    "run_get_intents",
    "run_parse_into_json",
    "run_parse_with_alternatives_into_json",
    "run_get_slots_into_json",
    "run_get_slots_with_alternatives_into_json",
    "run_get_intents_into_json",
];

/// a string argument: none at all, or bytes without NUL
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Null,
    Bytes(Vec<u8>),
}

impl Arg {
    fn of(s: &str) -> Arg {
        Arg::Bytes(s.bytes().filter(|b| *b != 0).collect())
    }
    fn owned(&self) -> Option<CString> {
        match self {
            Arg::Null => None,
            Arg::Bytes(b) => Some(CString::new(b.clone()).unwrap()),
        }
    }
    fn valid(&self) -> bool {
        matches!(self, Arg::Bytes(b) if std::str::from_utf8(b).is_ok())
    }
    fn string(&self) -> String {
        match self {
            Arg::Null => String::new(),
            Arg::Bytes(b) => String::from_utf8_lossy(b).into_owned(),
        }
    }
}

fn ptr(s: &Option<CString>) -> *const c_char {
    s.as_ref().map_or(std::ptr::null(), |s| s.as_ptr())
}

#[derive(Clone, Debug)]
pub struct Call {
    pub op: usize,
    pub text: Arg,
    pub intent: Arg,
    pub white: Option<Vec<Arg>>,
    pub black: Option<Vec<Arg>>,
    pub intents: u32,
    pub slots: u32,
}

static SENTINEL: u8 = 0;
fn sentinel() -> *mut c_void {
    &SENTINEL as *const u8 as *mut c_void
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Done(usize),
    Refused(String),
}

/// The message of the last failure on this thread; Err: what is wrong with it.
fn last_error() -> Result<String, String> {
    let mut out = sentinel();
    let rc = unsafe { shim_last_error(&mut out) };
    if rc != 0 || out == sentinel() || out.is_null() {
        return Err(format!("get_last_error returns {} and writes {:?}", rc, out));
    }
    let m = unsafe { CStr::from_ptr(out as *const c_char) }.to_str().map(str::to_string);
    if unsafe { shim_destroy_string(out) } != 0 {
        return Err("destroy_string refuses the error message".to_string());
    }
    let m = m.map_err(|_| "the error message is not UTF-8".to_string())?;
    if m.trim().is_empty() {
        return Err("the error message is empty".to_string());
    }
    Ok(m)
}

/// Runs a call that writes to an output argument; Err: a breach of the contract.
fn outcome<F: FnOnce(*mut *mut c_void) -> c_int>(f: F) -> Result<Outcome, String> {
    let mut out = sentinel();
    match f(&mut out) {
        0 if out == sentinel() => Err("a succeeding call leaves its output unwritten".to_string()),
        0 if out.is_null() => Err("a succeeding call writes a null output".to_string()),
        0 => Ok(Outcome::Done(out as usize)),
        1 if out != sentinel() => Err(format!("a failing call writes its output ({:?})", out)),
        1 => {
            if thread_chance() {
                std::thread::yield_now();
            }
            Ok(Outcome::Refused(last_error()?))
        }
        rc => Err(format!("the result code is {}", rc)),
    }
}

fn thread_chance() -> bool {
    vmon::calls() % 2 == 0
}

pub fn create_dir(path: &Arg) -> Result<Outcome, String> {
    let s = path.owned();
    outcome(|o| unsafe { shim_create_dir(ptr(&s), o) })
}

/// the bytes in an allocation of their exact size
pub fn create_zip(bytes: Option<&[u8]>, size: usize) -> Result<Outcome, String> {
    let owned: Option<Box<[u8]>> = bytes.map(|b| b.to_vec().into_boxed_slice());
    let p = owned.as_ref().map_or(std::ptr::null(), |b| b.as_ptr());
    let r = outcome(|o| unsafe { shim_create_zip(p, size as c_uint, o) });
    if let (Some(a), Some(b)) = (&owned, bytes) {
        if **a != *b {
            return Err("the bytes of the archive are changed".to_string());
        }
    }
    r
}

pub fn call(engine: usize, c: &Call) -> Result<Outcome, String> {
    let (text, intent) = (c.text.owned(), c.intent.owned());
    let owned = |f: &Option<Vec<Arg>>| f.as_ref().map(|v| v.iter().map(Arg::owned).collect::<Vec<_>>());
    let (white, black) = (owned(&c.white), owned(&c.black));
    let ptrs = |f: &Option<Vec<Option<CString>>>| f.as_ref().map(|v| v.iter().map(ptr).collect::<Vec<_>>().into_boxed_slice());
    let (w, b) = (ptrs(&white), ptrs(&black));
    let parts = |f: &Option<Box<[*const c_char]>>, dangling: bool| match f {
        None => (std::ptr::null(), -1),
        Some(v) if v.is_empty() && !dangling => (std::ptr::null(), 0),
        Some(v) => (v.as_ptr(), v.len() as c_int),
    };
    let (wp, wn) = parts(&w, c.intents % 2 == 0);
    let (bp, bn) = parts(&b, c.slots % 2 == 0);
    let r = outcome(|o| unsafe {
        shim_call(c.op as c_int, engine as *const c_void, ptr(&text), ptr(&intent), wp, wn, bp, bn, c.intents, c.slots, o)
    });
    if text != c.text.owned() || intent != c.intent.owned() || white != owned(&c.white) || black != owned(&c.black) {
        return Err("an argument is changed by the call".to_string());
    }
    r
}

/// the result as text, walked in C
pub fn dump(op: usize, p: usize) -> Result<String, String> {
    unsafe {
        let s = shim_dump(op as c_int, p as *const c_void);
        let r = CStr::from_ptr(s).to_str().map(str::to_string).map_err(|_| "a string of the result is not UTF-8".to_string());
        shim_free(s);
        r
    }
}

pub fn destroy(op: usize, p: usize) -> Result<(), String> {
    match unsafe { shim_destroy(op as c_int, p as *mut c_void) } {
        0 => Ok(()),
        rc => Err(format!("destroying the result of {} returns {}", OPS[op], rc)),
    }
}

pub fn destroy_client(p: usize) -> Result<(), String> {
    match unsafe { shim_destroy_client(p as *mut c_void) } {
        0 => Ok(()),
        rc => Err(format!("destroying an engine returns {}", rc)),
    }
}

// ---------------------------------------------------------------- reading the results

fn text_at<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k)?.as_str()
}
fn float_at(v: &Value, k: &str) -> Option<f64> {
    let x = v.get(k)?;
    if x.is_null() { Some(f64::NAN) } else { x.as_f64() }
}
fn opt_at(v: &Value, k: &str) -> Option<Option<String>> {
    match v.get(k) {
        None | Some(Value::Null) => Some(None),
        Some(Value::String(s)) => Some(Some(s.clone())),
        _ => None,
    }
}
fn grain_at(v: &Value) -> Option<Grain> {
    use Grain::*;
    let g = text_at(v, "grain")?;
    [("Year", Year), ("Quarter", Quarter), ("Month", Month), ("Week", Week), ("Day", Day), ("Hour", Hour), ("Minute", Minute), ("Second", Second)]
        .iter()
        .find(|x| x.0.eq_ignore_ascii_case(g))
        .map(|x| x.1)
}
fn precision_at(v: &Value) -> Option<Precision> {
    match &*text_at(v, "precision")?.to_lowercase() {
        "approximate" => Some(Precision::Approximate),
        "exact" => Some(Precision::Exact),
        _ => None,
    }
}

fn value_of(v: &Value) -> Option<SlotValue> {
    let text = || text_at(v, "value").map(StringValue::from);
    let int = |k: &str| v.get(k).and_then(Value::as_i64);
    Some(match text_at(v, "kind")? {
        "Custom" => SlotValue::Custom(text()?),
        "MusicAlbum" => SlotValue::MusicAlbum(text()?),
        "MusicArtist" => SlotValue::MusicArtist(text()?),
        "MusicTrack" => SlotValue::MusicTrack(text()?),
        "City" => SlotValue::City(text()?),
        "Country" => SlotValue::Country(text()?),
        "Region" => SlotValue::Region(text()?),
        "Number" => SlotValue::Number(NumberValue { value: float_at(v, "value")? }),
        "Percentage" => SlotValue::Percentage(PercentageValue { value: float_at(v, "value")? }),
        "Ordinal" => SlotValue::Ordinal(OrdinalValue { value: int("value")? }),
        "InstantTime" => {
            SlotValue::InstantTime(InstantTimeValue { value: text_at(v, "value")?.to_string(), grain: grain_at(v)?, precision: precision_at(v)? })
        }
        "TimeInterval" => SlotValue::TimeInterval(TimeIntervalValue { from: opt_at(v, "from")?, to: opt_at(v, "to")? }),
        "AmountOfMoney" => SlotValue::AmountOfMoney(AmountOfMoneyValue {
            value: float_at(v, "value")? as f32,
            precision: precision_at(v)?,
            unit: opt_at(v, "unit")?,
        }),
        "Temperature" => SlotValue::Temperature(TemperatureValue { value: float_at(v, "value")? as f32, unit: opt_at(v, "unit")? }),
        "Duration" => SlotValue::Duration(DurationValue {
            years: int("years")?,
            quarters: int("quarters")?,
            months: int("months")?,
            weeks: int("weeks")?,
            days: int("days")?,
            hours: int("hours")?,
            minutes: int("minutes")?,
            seconds: int("seconds")?,
            precision: precision_at(v)?,
        }),
        _ => return None,
    })
}

fn slot_of(v: &Value) -> Option<Slot> {
    let r = v.get("range")?;
    Some(Slot {
        raw_value: text_at(v, "rawValue")?.to_string(),
        value: value_of(v.get("value")?)?,
        alternatives: v.get("alternatives")?.as_array()?.iter().map(value_of).collect::<Option<Vec<_>>>()?,
        range: r.get("start")?.as_u64()? as usize..r.get("end")?.as_u64()? as usize,
        entity: text_at(v, "entity")?.to_string(),
        slot_name: text_at(v, "slotName")?.to_string(),
        confidence_score: match v.get("confidenceScore") {
            None | Some(Value::Null) => None,
            Some(c) => Some(c.as_f64()? as f32),
        },
    })
}
fn slots_of(v: &Value) -> Option<Vec<Slot>> {
    v.as_array()?.iter().map(slot_of).collect()
}
fn intent_of(v: &Value) -> Option<IntentClassifierResult> {
    Some(IntentClassifierResult {
        intent_name: match v.get("intentName")? {
            Value::Null => None,
            s => Some(s.as_str()?.to_string()),
        },
        confidence_score: float_at(v, "confidenceScore")? as f32,
    })
}

/// the answer written as JSON text, by the names of the keys
pub fn answer_of(op: usize, text: &str) -> Option<Answer> {
    let v: Value = serde_json::from_str(text).ok()?;
    Some(match op % 5 {
        0 | 1 => Answer::Parse(IntentParserResult {
            input: text_at(&v, "input")?.to_string(),
            intent: intent_of(v.get("intent")?)?,
            slots: slots_of(v.get("slots")?)?,
            alternatives: v
                .get("alternatives")?
                .as_array()?
                .iter()
                .map(|a| Some(IntentParserAlternative { intent: intent_of(a.get("intent")?)?, slots: slots_of(a.get("slots")?)? }))
                .collect::<Option<Vec<_>>>()?,
        }),
        2 | 3 => Answer::Slots(slots_of(&v)?),
        _ => Answer::Intents(v.as_array()?.iter().map(intent_of).collect::<Option<Vec<_>>>()?),
    })
}

/// the engine's own answer to the same question
fn query_of(c: &Call) -> Query {
    let names = |f: &Option<Vec<Arg>>| f.as_ref().map(|v| v.iter().map(Arg::string).collect::<Vec<_>>());
    let text = c.text.string();
    match c.op % 5 {
        0 => Query::Parse { text, white: names(&c.white), black: names(&c.black), intents: 0, slots: 0 },
        1 => Query::Parse { text, white: names(&c.white), black: names(&c.black), intents: c.intents as usize, slots: c.slots as usize },
        2 => Query::Slots { text, intent: c.intent.string(), n: 0 },
        3 => Query::Slots { text, intent: c.intent.string(), n: c.slots as usize },
        _ => Query::Intents { text },
    }
}

/// what makes the call fail before the engine is asked
fn bad_argument(c: &Call) -> bool {
    let filters = c.op % 5 < 2 && (c.white.iter().flatten().any(|a| !a.valid()) || c.black.iter().flatten().any(|a| !a.valid()));
    !c.text.valid() || filters || (matches!(c.op % 5, 2 | 3) && !c.intent.valid())
}

fn broken_utf8(rng: &mut Rng, base: &str) -> Arg {
    let mut b: Vec<u8> = base.bytes().filter(|b| *b != 0).collect();
    let at = rng.below(b.len() + 1);
    let bad: &[u8] = [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\x80"][rng.below(6)];
    // not before a continuation byte, which could complete it
    let at = if b.get(at).map_or(false, |x| x & 0xC0 == 0x80) { b.len() } else { at };
    b.splice(at..at, bad.iter().cloned());
    if std::str::from_utf8(&b).is_ok() { Arg::Bytes(vec![0xff]) } else { Arg::Bytes(b) }
}

fn filter_args(rng: &mut Rng, spec: &Spec, odd: usize, marker: &str) -> Option<Vec<Arg>> {
    let mut f: Option<Vec<Arg>> = random_filter(rng, spec, false).map(|v| v.iter().map(|s| Arg::of(s)).collect());
    if let (Some(v), true) = (&mut f, rng.chance(odd)) {
        let x = match rng.below(4) {
            0 => Arg::Null,
            1 => broken_utf8(rng, &spec.intents[0].name),
            _ => Arg::of(marker),
        };
        let at = rng.below(v.len() + 1);
        v.insert(at, x);
    }
    f
}

fn random_call(w: &World, rng: &mut Rng, odd: usize, marker: &str) -> Call {
    let t = any_text(w, rng, 25);
    let text = match rng.below(100) {
        x if x < odd / 3 => Arg::Null,
        x if x < odd => broken_utf8(rng, &t),
        x if x < odd + 5 => Arg::of(""),
        _ => Arg::of(&t),
    };
    let intent = match rng.below(100) {
        x if x < odd / 3 => Arg::Null,
        x if x < odd / 2 => broken_utf8(rng, &w.spec.intents[0].name),
        x if x < odd => Arg::of(marker),
        x if x < odd + 3 => Arg::of(""),
        _ => Arg::of(&rng.pick(&w.spec.intents).name),
    };
    let n = |rng: &mut Rng, max: usize| if rng.chance(10) { *rng.pick(&[u32::MAX, u32::MAX - 255, 127, 128, 255, 256, 257, 65_536, 1 << 31]) } else { rng.below(max) as u32 };
    Call {
        op: rng.below(10),
        text,
        intent,
        white: filter_args(rng, &w.spec, odd, marker),
        black: filter_args(rng, &w.spec, odd, marker),
        intents: n(rng, 5),
        slots: n(rng, 4),
    }
}

// ---------------------------------------------------------------- C19

struct Env<'a> {
    w: &'a World,
    zip: Vec<u8>,
    file: String,
    thread: usize,
}

struct State {
    engines: Vec<usize>,
    results: Vec<(usize, usize)>,
    counters: BTreeMap<&'static str, u64>,
    seen: Vec<String>,
    /// of the failures so far on this thread
    markers: Vec<String>,
}

/// A failure's message is of this very failure.
fn check_message(st: &mut State, m: &str, marker: Option<&str>) -> Result<(), String> {
    if let Some(k) = marker {
        if !m.contains(k) {
            return Err(format!("the message of the failure, {:?}, is not about {:?}", m, k));
        }
    }
    if let Some(old) = st.markers.iter().find(|o| marker != Some(&***o) && m.contains(&***o)) {
        return Err(format!("the message of the failure, {:?}, is of an earlier failure or of another thread ({:?})", m, old));
    }
    Ok(())
}

/// Runs a random sequence of calls that keeps to the contract.
fn sequence(env: &Env, rng: &mut Rng, steps: usize, shared: Option<&[usize]>, faults: bool) -> Result<State, String> {
    let mut st = State { engines: vec![], results: vec![], counters: BTreeMap::new(), seen: vec![], markers: vec![] };
    // of the other threads
    for t in 0..4 {
        if t != env.thread {
            st.markers.push(format!("thread{}step", t));
        }
    }
    let me = format!("thread{}step", env.thread);
    let dir = env.w.dir.to_str().unwrap().to_string();
    let mut errors = Ok(());
    for step in 0..steps {
        let marker = format!("{}{}_", me, step);
        let mut run = || -> Result<(), String> {
            let what = rng.below(100);
            let engines: Vec<usize> = shared.map_or(st.engines.clone(), |s| s.to_vec());
            if (engines.is_empty() && what < 60) || what < 4 {
                // a new engine
                *st.counters.entry("create").or_insert(0) += 1;
                let missing = format!("{}/missing {}", dir, marker);
                let (r, ok, mark) = match rng.below(12) {
                    0 => (create_dir(&Arg::Null)?, Some(false), None),
                    1 => (create_dir(&broken_utf8(rng, &dir))?, Some(false), None),
                    2 => (create_dir(&Arg::of(&missing))?, Some(false), Some(&*marker)),
                    3 => (create_dir(&Arg::of(&env.file))?, Some(false), None),
                    4 => (create_dir(&Arg::of(""))?, Some(false), None),
                    5 => (create_zip(None, [0usize, 0, 10][rng.below(3)])?, Some(false), None),
                    6 => (create_zip(Some(&[]), 0)?, Some(false), None),
                    7 => {
                        let n = rng.range(1, env.zip.len() - 1);
                        (create_zip(Some(&env.zip[..n]), n)?, Some(false), None)
                    }
                    8 => {
                        let junk: Vec<u8> = (0..rng.range(1, 300)).map(|_| rng.next() as u8).collect();
                        (create_zip(Some(&junk), junk.len())?, Some(false), None)
                    }
                    9 | 10 => (create_zip(Some(&env.zip), env.zip.len())?, Some(true), None),
                    _ => (create_dir(&Arg::of(&dir))?, Some(true), None),
                };
                st.seen.push(format!("create {:?}", matches!(r, Outcome::Done(_))));
                return match (r, ok) {
                    (Outcome::Done(p), Some(false)) => {
                        st.engines.push(p);
                        Err("an engine is created from nothing sound".to_string())
                    }
                    (Outcome::Done(p), _) => {
                        st.engines.push(p);
                        Ok(())
                    }
                    (Outcome::Refused(m), Some(true)) => Err(format!("a sound model is refused: {}", m)),
                    (Outcome::Refused(m), _) => {
                        *st.counters.entry("failures").or_insert(0) += 1;
                        check_message(&mut st, &m, mark)
                    }
                };
            }
            if what < 6 && shared.is_none() && st.engines.len() > 1 {
                *st.counters.entry("destroy_engine").or_insert(0) += 1;
                let i = rng.below(st.engines.len());
                let p = st.engines.swap_remove(i);
                return destroy_client(p);
            }
            if what < 10 {
                let mut out = sentinel();
                let rc = unsafe { shim_version(&mut out) };
                if rc != 0 || out == sentinel() || out.is_null() {
                    return Err(format!("get_model_version returns {} and writes {:?}", rc, out));
                }
                let v = unsafe { CStr::from_ptr(out as *const c_char) }.to_string_lossy().into_owned();
                if unsafe { shim_destroy_string(out) } != 0 {
                    return Err("destroy_string refuses the model version".to_string());
                }
                if v != snips_nlu_lib::MODEL_VERSION {
                    return Err(format!("the model version is {:?}", v));
                }
                return Ok(());
            }
            if what < 13 {
                // nothing to destroy
                *st.counters.entry("destroy_null").or_insert(0) += 1;
                let rc = unsafe {
                    match rng.below(5) {
                        0 => shim_destroy_client(std::ptr::null_mut()),
                        1 => shim_destroy_string(std::ptr::null_mut()),
                        i => shim_destroy([0, 2, 4][i - 2], std::ptr::null_mut()),
                    }
                };
                return match rc {
                    0 => Ok(()),
                    1 => last_error().map(|_| ()),
                    rc => Err(format!("destroying a null pointer returns {}", rc)),
                };
            }
            if what < 15 {
                return last_error().map(|_| ());
            }
            if what < 35 && !st.results.is_empty() {
                // read a result late, then give it back
                let i = rng.below(st.results.len());
                let (op, p) = st.results.swap_remove(i);
                let d = dump(op, p)?;
                destroy(op, p)?;
                *st.counters.entry("results_read").or_insert(0) += 1;
                return match answer_of(op, &d) {
                    Some(_) => Ok(()),
                    None => Err(format!("the result of {} cannot be read: {}", OPS[op], d)),
                };
            }
            // a query
            let null = engines.is_empty() || rng.chance(3);
            let e = if null { 0 } else { *rng.pick(&engines) };
            let c = random_call(env.w, rng, 12, &marker);
            *st.counters.entry("queries").or_insert(0) += 1;
            let fault = faults && rng.chance(12);
            let before = vmon::faults();
            if fault {
                vmon::fail_nth(None, rng.range(1, 8) as u64);
            }
            let r = call(e, &c);
            vmon::clear_faults();
            let hit = vmon::faults() > before;
            let r = r.map_err(|m| format!("{}: {} ({:?})", OPS[c.op], m, c))?;
            let marked = c.op % 5 < 2 && {
                let m = Arg::of(&marker);
                c.white.iter().flatten().chain(c.black.iter().flatten()).filter(|a| **a == m).count() > 0
            } || (matches!(c.op % 5, 2 | 3) && c.intent == Arg::of(&marker));
            st.seen.push(format!("{} {} {} {:?} {}", c.op, null, hit, r == Outcome::Refused(String::new()), bad_argument(&c)));
            match r {
                Outcome::Done(p) => {
                    st.results.push((c.op, p));
                    if null || bad_argument(&c) {
                        return Err(format!("{} succeeds with {}: {:?}", OPS[c.op], if null { "a null engine" } else { "an invalid argument" }, c));
                    }
                    if hit {
                        return Err(format!("{} succeeds although a component failed: {:?}", OPS[c.op], c));
                    }
                    if marked {
                        return Err(format!("{} succeeds with an unknown intent: {:?}", OPS[c.op], c));
                    }
                    Ok(())
                }
                Outcome::Refused(m) => {
                    *st.counters.entry("failures").or_insert(0) += 1;
                    let expected = null || bad_argument(&c) || hit || marked;
                    if !expected && (c.op % 5 != 2 && c.op % 5 != 3 || env.w.spec.intents.iter().any(|i| Arg::of(&i.name) == c.intent)) {
                        return Err(format!("{} fails: {} ({:?})", OPS[c.op], m, c));
                    }
                    let mark = if null || bad_argument(&c) {
                        None
                    } else if hit {
                        *st.counters.entry("failing_components").or_insert(0) += 1;
                        Some("injected fault")
                    } else if marked {
                        Some(&*marker)
                    } else {
                        None
                    };
                    check_message(&mut st, &m, mark)
                }
            }
        };
        errors = run();
        if errors.is_err() {
            break;
        }
        st.markers.push(marker);
    }
    // everything is given back, in any order
    let engines = std::mem::replace(&mut st.engines, vec![]);
    let mut results = std::mem::replace(&mut st.results, vec![]);
    rng.shuffle(&mut results);
    let (early, late) = results.split_at(rng.below(results.len() + 1));
    for (op, p) in early {
        destroy(*op, *p)?;
    }
    for p in engines {
        destroy_client(p)?;
    }
    // results outlive the engines they come from
    for (op, p) in late {
        dump(*op, *p)?;
        destroy(*op, *p)?;
    }
    errors.map(|_| st)
}

pub fn c19(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { all_value_kinds: rng.chance(50), grand: 1, ..Opts::default() };
    let w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    let top = rng.pick(TOPS).to_string();
    let zip = zip_of(&entries_of(&w.dir, &top, rng));
    let file = ctx.scratch.join("a file");
    std::fs::write(&file, "text").unwrap();
    let file = file.to_str().unwrap().to_string();
    let detail = |w: &World| json!({"world": brief(&w.spec)});
    if rng.chance(70) {
        // the same sequence several times: what stays allocated does not grow
        let steps = rng.range(20, 70);
        let faults = rng.chance(50);
        let start = rng.clone();
        let mut live = vec![];
        for round in 0..4 {
            let mut r = start.clone();
            let env = Env { w: &w, zip: zip.clone(), file: file.clone(), thread: 0 };
            match guard(|| sequence(&env, &mut r, steps, None, faults)) {
                Ok(Ok(st)) => {
                    for (k, n) in &st.counters {
                        ctx.add(k, *n);
                    }
                    if round == 0 {
                        ctx.eval(Some((&w.spec.intents[0].name, &st.seen)));
                        ctx.sample(|| json!({"sequence": st.seen.iter().take(12).collect::<Vec<_>>()}));
                    }
                }
                Ok(Err(m)) => return ctx.fail(m, detail(&w)),
                Err(p) => return ctx.fail(format!("panic: {}", p), detail(&w)),
            }
            drop(env);
            live.push(alloc::live().0);
        }
        ctx.count("sequences_repeated");
        if live.windows(2).all(|p| p[1] > p[0]) {
            ctx.fail(format!("blocks stay allocated at each repetition of the same sequence: {:?}", live), detail(&w));
        }
    } else {
        // threads, with engines of their own or shared
        let threads = rng.range(2, 4);
        let shared: Option<Vec<usize>> = if rng.chance(70) {
            let mut v = vec![];
            for _ in 0..rng.range(1, 2) {
                match create_dir(&Arg::of(w.dir.to_str().unwrap())) {
                    Ok(Outcome::Done(p)) => v.push(p),
                    other => return ctx.fail(format!("a sound model is refused: {:?}", other), detail(&w)),
                }
            }
            Some(v)
        } else {
            None
        };
        let steps = rng.range(20, 60);
        let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
        vmon::delays(rng.next() | 1);
        let barrier = Arc::new(Barrier::new(threads));
        let (wr, zr, fr, sr) = (&w, &zip, &file, &shared);
        let out: Vec<Result<Result<State, String>, String>> = std::thread::scope(|s| {
            let handles: Vec<_> = seeds
                .iter()
                .enumerate()
                .map(|(t, seed)| {
                    let barrier = barrier.clone();
                    s.spawn(move || {
                        let env = Env { w: wr, zip: zr.clone(), file: fr.clone(), thread: t };
                        barrier.wait();
                        guard(|| sequence(&env, &mut Rng(*seed), steps, sr.as_ref().map(|v| &v[..]), false))
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        vmon::delays(0);
        for p in shared.iter().flatten() {
            if let Err(m) = destroy_client(*p) {
                return ctx.fail(m, detail(&w));
            }
        }
        ctx.count(if shared.is_some() { "threads_with_shared_engines" } else { "threads_with_own_engines" });
        let mut seen = vec![];
        for r in out {
            match r {
                Ok(Ok(st)) => {
                    for (k, n) in &st.counters {
                        ctx.add(k, *n);
                    }
                    seen.push(st.seen);
                }
                Ok(Err(m)) => return ctx.fail(format!("with {} threads: {}", threads, m), detail(&w)),
                Err(p) => return ctx.fail(format!("with {} threads: panic: {}", threads, p), detail(&w)),
            }
        }
        ctx.eval(Some((&w.spec.intents[0].name, seen)));
    }
}

// ---------------------------------------------------------------- C20

fn client_of(w: &World, rng: &mut Rng) -> Result<usize, String> {
    let r = if rng.chance(30) {
        let top = rng.pick(TOPS).to_string();
        let zip = zip_of(&entries_of(&w.dir, &top, rng));
        create_zip(Some(&zip), zip.len())?
    } else {
        create_dir(&Arg::of(path_text(&w.dir)))?
    };
    match r {
        Outcome::Done(p) => Ok(p),
        Outcome::Refused(m) => Err(format!("a sound model is refused: {}", m)),
    }
}

fn path_text(p: &Path) -> &str {
    p.to_str().unwrap()
}

fn answer(engine: usize, c: &Call) -> Result<Answer, String> {
    match call(engine, c)? {
        Outcome::Refused(m) => Ok(Answer::Error(m)),
        Outcome::Done(p) => {
            let d = dump(c.op, p);
            destroy(c.op, p)?;
            let d = d?;
            answer_of(c.op, &d).ok_or_else(|| format!("the result of {} cannot be read: {}", OPS[c.op], d))
        }
    }
}

fn kinds_of(a: &Answer) -> Vec<std::mem::Discriminant<SlotValue>> {
    all_slots(a).iter().flat_map(|(s, _)| s.iter()).flat_map(|s| std::iter::once(&s.value).chain(&s.alternatives)).map(std::mem::discriminant).collect()
}

pub fn c20(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { all_value_kinds: rng.chance(70), ..Opts::default() };
    let w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    let client = match client_of(&w, rng) {
        Ok(p) => p,
        Err(m) => return ctx.fail(m, json!({"world": brief(&w.spec)})),
    };
    for _ in 0..25 {
        // one question, asked in each of the ways it can be asked
        let mut c = random_call(&w, rng, 0, "");
        if rng.chance(10) {
            // one unknown name
            let name = Arg::of(["nope", "MakeTea ", "maketea"][rng.below(3)]);
            match rng.below(3) {
                0 => c.white.get_or_insert(vec![]).push(name),
                1 => c.black.get_or_insert(vec![]).push(name),
                _ => c.intent = name,
            }
        }
        let base = c.op % 5;
        let q = query_of(&Call { op: base, ..c.clone() });
        let expected = match ask_or_fail(ctx, &w, &q) {
            Some(a) => a,
            None => break,
        };
        let mut forms = vec![(base, c.clone()), (base + 5, c.clone())];
        if base == 0 || base == 2 {
            // alternatives asked for, none
            let none = Call { intents: 0, slots: 0, ..c.clone() };
            forms.push((base + 1, none.clone()));
            forms.push((base + 6, none));
        }
        for (op, f) in forms {
            let f = Call { op, ..f };
            let a = match guard(|| answer(client, &f)) {
                Ok(Ok(a)) => a,
                Ok(Err(m)) => return ctx.fail(format!("{}: {}", OPS[op], m), about(&w.spec, &q, &f)),
                Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &f)),
            };
            if !same(&a, &expected) {
                return ctx.fail(
                    format!("{} and the engine disagree", OPS[op]),
                    json!({"asked": about(&w.spec, &q, &expected), "call": format!("{:?}", f), "answer": format!("{:?}", a)}),
                );
            }
            if let (Answer::Error(m), Answer::Error(e)) = (&a, &expected) {
                // the name that is unknown
                let unknown = ["nope", "MakeTea ", "maketea"].iter().find(|u| e.contains(**u));
                if unknown.map_or(m.is_empty(), |u| !m.contains(u)) {
                    return ctx.fail(format!("the message of {}, {:?}, is not the engine's, {:?}", OPS[op], m, e), about(&w.spec, &q, &f));
                }
                ctx.count("errors_compared");
            }
            let kinds = kinds_of(&a);
            ctx.add("slot_values_compared", kinds.len() as u64);
            let alternatives = match &a {
                Answer::Parse(r) => r.alternatives.len(),
                Answer::Intents(v) => v.len(),
                _ => 0,
            };
            ctx.add("alternatives_compared", alternatives as u64);
            ctx.eval(Some((op, &w.spec.intents[0].name, text_of(&q), kinds, alternatives)));
            ctx.sample(|| json!({"call": format!("{:?}", f), "answer": format!("{:?}", a)}));
        }
    }
    if let Err(m) = destroy_client(client) {
        ctx.fail(m, json!({"world": brief(&w.spec)}));
    }
}
