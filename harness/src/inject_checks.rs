//! Checks of the injection of entity values into a model directory.
use crate::core::*;
use crate::engine_checks::*;
use crate::load_checks::{break_json, listing, read_json, rename_parts, set, unset, write_json};
use crate::texts::random_case;
use crate::world::*;
use serde_json::{json, Value};
use snips_nlu_lib::injection::{NluInjectionError, NluInjector};
use snips_nlu_lib::{SharedResources, SnipsNluEngine};
use snips_nlu_ontology::{BuiltinEntityKind, SlotValue};
use snips_nlu_utils::token::{tokenize, tokenize_light};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::ops::Range;
use std::path::Path;
use std::sync::Arc;

fn inject(dir: &Path, values: &[(String, String)], vanilla: Option<bool>, res: Option<Arc<SharedResources>>) -> Result<Result<(), NluInjectionError>, String> {
    guard(|| {
        let mut i = NluInjector::new(dir);
        for (e, v) in values {
            i = i.add_value(e.clone(), v.clone());
        }
        if let Some(v) = vanilla {
            i = i.from_vanilla(v);
        }
        if let Some(r) = res {
            i = i.shared_resources(r);
        }
        i.inject()
    })
}

const ODD: &[&str] = &["jay-z", "AC/DC", "P!nk", "Beyoncé", "İzmir", "x-ray", "d'Artagnan", "U.S.A", "making", "Makes", "lights", "turned", "TURNING", "étés", "Straße", "東京 Tower", "ΩΜΕΓΑ", "n°5", "rock'n'roll", "Ольга"];

fn new_value(rng: &mut Rng, known: &[(String, String)], earlier: &[String]) -> String {
    if !known.is_empty() && rng.chance(12) {
        let (raw, resolved) = rng.pick(known).clone();
        let base = if rng.chance(60) { raw } else { resolved };
        return random_case(rng, &base);
    }
    if !earlier.is_empty() && rng.chance(10) {
        let v = rng.pick(earlier).clone();
        return if rng.chance(50) { v } else { random_case(rng, &v) };
    }
    let n = if rng.chance(3) { rng.range(4, 20) } else { [1, 1, 1, 2, 2, 3][rng.below(6)] };
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out += *rng.pick(&[" ", " ", " ", " ", "-", "'", "  ", ", ", " & ", "."]);
        }
        let w = match rng.below(10) {
            0..=3 => rng.pick(VALUES).to_string(),
            4..=5 => rng.pick(CARRIERS).to_string(),
            6..=8 => rng.pick(ODD).to_string(),
            _ => format!("w{}", rng.below(1000)),
        };
        out += &random_case(rng, &w);
    }
    match rng.below(20) {
        0 => format!(" {}", out),
        1 => format!("{}!", out),
        2 => format!("({})", out),
        _ => out,
    }
}

/// the values of one entity as the model should know them
#[derive(Clone, Debug, Default)]
struct Known {
    trained: Vec<(String, String)>,
    injected: Vec<String>,
    gone: Vec<String>,
}

struct Forms<'a> {
    spec: &'a Spec,
}

impl<'a> Forms<'a> {
    /// the tokens of a text, as the parser of the entity compares them
    fn plain(&self, entity: &str, text: &str) -> String {
        let l = text.to_lowercase();
        if is_builtin(entity) {
            l.split_whitespace().collect::<Vec<_>>().join(" ")
        } else {
            tokenize_light(&l, ulang(&self.spec.lang)).join(" ")
        }
    }
    fn stemmed(&self, text: &str) -> String {
        stem_words(self.spec.stems.as_ref().unwrap(), &text.to_lowercase(), ulang(&self.spec.lang)).to_lowercase()
    }
    /// what the parser of the entity compares with for an injected value
    fn of(&self, entity: &str, value: &str) -> Vec<String> {
        if is_builtin(entity) {
            return vec![self.plain(entity, value)];
        }
        match self.spec.custom_usage {
            1 => vec![self.plain(entity, value)],
            0 => vec![self.stemmed(value)],
            _ => vec![self.plain(entity, value), self.stemmed(value)],
        }
    }
    fn span(&self, entity: &str, text: &str) -> Range<usize> {
        if is_builtin(entity) {
            let chars: Vec<char> = text.chars().collect();
            let a = chars.iter().position(|c| !c.is_whitespace()).unwrap_or(0);
            let b = chars.iter().rposition(|c| !c.is_whitespace()).map_or(0, |b| b + 1);
            a..b
        } else {
            let t = tokenize(text, ulang(&self.spec.lang));
            t[0].char_range.start..t[t.len() - 1].char_range.end
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Found {
    range: Range<usize>,
    resolved: String,
    alternatives: Vec<String>,
}

pub fn string_of(v: &SlotValue) -> String {
    let v = serde_json::to_value(v).unwrap();
    v["value"].as_str().map(str::to_string).unwrap_or_else(|| v.to_string())
}

fn find(res: &SharedResources, entity: &str, text: &str) -> Result<Vec<Found>, String> {
    let r = guard(|| {
        if is_builtin(entity) {
            let kind = BuiltinEntityKind::from_identifier(entity).unwrap();
            res.builtin_entity_parser.extract_entities(text, Some(&[kind]), true, 50).map(|v| {
                v.into_iter()
                    .map(|e| Found { range: e.range, resolved: string_of(&e.entity), alternatives: e.alternatives.iter().map(string_of).collect() })
                    .collect::<Vec<_>>()
            })
        } else {
            res.custom_entity_parser.extract_entities(text, Some(&[entity.to_string()]), 50).map(|v| {
                v.into_iter().map(|e| Found { range: e.range, resolved: e.resolved_value, alternatives: e.alternative_resolved_values }).collect()
            })
        }
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

fn injectable(spec: &Spec) -> Vec<String> {
    spec.entities.iter().map(|e| e.name.clone()).chain(spec.bgaz.iter().map(|b| b.0.clone())).collect()
}

fn trained_of(spec: &Spec) -> BTreeMap<String, Known> {
    let custom = spec.entities.iter().map(|e| (e.name.clone(), e.values.clone()));
    let builtin = spec.bgaz.iter().map(|b| (b.0.clone(), b.1.clone()));
    custom.chain(builtin).map(|(n, v)| (n, Known { trained: v, ..Known::default() })).collect()
}

/// another letter case with the same lowercase form
fn cased(rng: &mut Rng, v: &str) -> String {
    let c = match rng.below(4) {
        0 => v.to_lowercase(),
        1 => v.to_uppercase(),
        2 => random_case(rng, v),
        _ => v.to_string(),
    };
    if c.to_lowercase() == v.to_lowercase() { c } else { v.to_string() }
}

/// the words of a value in other forms with the same stems
fn inflected(rng: &mut Rng, spec: &Spec, v: &str) -> String {
    let stems = spec.stems.as_ref().unwrap();
    tokenize_light(&v.to_lowercase(), ulang(&spec.lang))
        .iter()
        .map(|w| {
            let s = stem_word(stems, w);
            let forms: Vec<&String> = stems.iter().filter(|x| x.0 == s).flat_map(|x| x.1.iter()).filter(|f| stem_word(stems, f) == s).collect();
            if forms.is_empty() || rng.chance(20) { w.clone() } else { rng.pick(&forms).to_string() }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

struct State<'a> {
    spec: &'a Spec,
    engine: SnipsNluEngine,
    res: Arc<SharedResources>,
    known: BTreeMap<String, Known>,
    history: Vec<Value>,
}

impl<'a> State<'a> {
    fn say(&self, entity: &str, text: &str, got: &dyn std::fmt::Debug) -> Value {
        json!({"entity": entity, "text": text, "got": format!("{:?}", got), "usage": self.spec.custom_usage, "lang": self.spec.lang,
            "injections": self.history, "known": format!("{:?}", self.known[entity])})
    }

    /// `text` is the value: the parser must say so
    fn recognised(&self, ctx: &mut Ctx, entity: &str, text: &str, value: &str, injected: bool) -> bool {
        let f = Forms { spec: self.spec };
        let k = &self.known[entity];
        let form = f.plain(entity, text);
        if form.is_empty() {
            return true;
        }
        let span = f.span(entity, text);
        let rival = k.injected.iter().any(|v| v != value && f.of(entity, v).contains(&form))
            || !injected && k.trained.iter().any(|(raw, r)| *raw == form && r != value);
        let got = match find(&self.res, entity, text) {
            Ok(g) => g,
            Err(e) => {
                ctx.fail(format!("asking for an injected entity: {}", e), self.say(entity, text, &()));
                return false;
            }
        };
        let says = |resolved: &str, alternatives: &[String]| if rival { resolved == value || alternatives.iter().any(|a| a == value) } else { resolved == value };
        if !got.iter().any(|m| m.range == span && says(&m.resolved, &m.alternatives)) {
            let what = if injected { "an injected value" } else { "a value of the training" };
            ctx.fail(format!("{} is not recognised as {:?} in {:?}", what, value, text), self.say(entity, text, &got));
            return false;
        }
        ctx.eval(Some((entity, text, value, self.spec.custom_usage)));
        ctx.count(match (injected, rival) {
            (true, false) => "injected_recognised",
            (true, true) => "injected_among_rivals",
            _ => "trained_recognised",
        });
        // the same through the engine
        for i in &self.spec.intents {
            if let Some((slot, _)) = i.slots.iter().find(|s| s.1 == entity) {
                let r = guard(|| self.engine.extract_slot_with_alternatives(text.to_string(), &i.name, slot, 50));
                let ok = match &r {
                    Ok(Ok(Some(s))) => s.range == span && says(&string_of(&s.value), &s.alternatives.iter().map(string_of).collect::<Vec<_>>()),
                    _ => false,
                };
                if !ok {
                    ctx.fail(format!("the engine does not extract {:?} from {:?}", value, text), self.say(entity, text, &r.map(|r| r.map_err(|e| e.to_string()))));
                    return false;
                }
                ctx.count("engine_extractions");
                break;
            }
        }
        true
    }

    fn check(&self, ctx: &mut Ctx, rng: &mut Rng) -> bool {
        let f = Forms { spec: self.spec };
        for (entity, k) in &self.known {
            let stems = !is_builtin(entity) && self.spec.custom_usage != 1;
            for v in &k.injected {
                if is_builtin(entity) || self.spec.custom_usage != 0 {
                    if !self.recognised(ctx, entity, v, v, true) || !self.recognised(ctx, entity, &cased(rng, v), v, true) {
                        return false;
                    }
                }
                if stems && !f.plain(entity, v).is_empty() {
                    let stemmed = f.stemmed(&inflected(rng, self.spec, v));
                    if !self.recognised(ctx, entity, &stemmed, v, true) {
                        return false;
                    }
                    ctx.count("stemmed_forms");
                }
            }
            for (raw, resolved) in &k.trained {
                let form = f.plain(entity, raw);
                let hidden = k.injected.iter().any(|v| f.of(entity, v).contains(&form));
                let ok = if hidden {
                    match find(&self.res, entity, raw) {
                        Ok(g) => g.iter().any(|m| m.range == f.span(entity, raw) && (m.resolved == *resolved || m.alternatives.contains(resolved))),
                        Err(_) => false,
                    }
                } else {
                    self.recognised(ctx, entity, raw, resolved, false)
                };
                if !ok {
                    ctx.fail(format!("the value {:?} of the training is lost", raw), self.say(entity, raw, &find(&self.res, entity, raw)));
                    return false;
                }
            }
            // exactly these
            let forms: BTreeSet<String> = k.trained.iter().map(|v| f.plain(entity, &v.0)).chain(k.injected.iter().flat_map(|v| f.of(entity, v))).collect();
            let values: BTreeSet<&String> = k.trained.iter().map(|v| &v.1).chain(&k.injected).collect();
            let mut texts: Vec<String> = k.gone.clone();
            for _ in 0..4 {
                let n = rng.range(1, 5);
                let parts: Vec<String> = (0..n).map(|_| if rng.chance(50) { new_value(rng, &k.trained, &k.gone) } else { new_value(rng, &[], &k.injected) }).collect();
                texts.push(parts.join(" "));
            }
            for text in texts {
                let got = match find(&self.res, entity, &text) {
                    Ok(g) => g,
                    Err(e) => {
                        ctx.fail(format!("asking for an entity: {}", e), self.say(entity, &text, &()));
                        return false;
                    }
                };
                for m in &got {
                    let at: String = text.chars().skip(m.range.start).take(m.range.end - m.range.start).collect();
                    if !forms.contains(&f.plain(entity, &at)) || !values.contains(&m.resolved) || m.alternatives.iter().any(|a| !values.contains(a)) {
                        ctx.fail(format!("{:?} is recognised, which is not a value of the entity", at), self.say(entity, &text, &got));
                        return false;
                    }
                    ctx.count("matches_in_texts");
                }
                ctx.eval(if got.is_empty() { None } else { Some((entity.clone(), text.clone(), String::new(), 9)) });
            }
        }
        true
    }
}

pub fn c17(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = Spec::generate(rng, &Opts { all_value_kinds: rng.clone().chance(30), ..Opts::default() });
    if spec.stems.is_some() && rng.chance(50) {
        spec.stems.as_mut().unwrap().push(("lumi".into(), vec!["lights".into(), "lumieres".into()]));
    }
    let dir = ctx.odd_dir(rng, "inject");
    spec.write(&dir);
    if rng.chance(30) {
        rename_parts(&dir, rng);
        ctx.count("models_with_other_names");
    }
    let engine = match load(ctx, &spec, &dir) {
        Some(e) => e,
        None => return,
    };
    let spec = spec;
    let res = shared(&spec, &dir);
    let mut st = State { spec: &spec, engine, res, known: trained_of(&spec), history: vec![] };
    let names = injectable(&spec);
    let f = Forms { spec: &spec };
    for round in 0..rng.range(1, 4) {
        let mut values: Vec<(String, String)> = vec![];
        if round == 0 || rng.chance(93) {
            let n = rng.range(1, 3);
            // a user's contacts, say
            let many = rng.chance(4);
            for e in (0..n).map(|_| rng.pick(&names).clone()).collect::<BTreeSet<_>>() {
                let k = &st.known[&e];
                let mut own: Vec<String> = vec![];
                let most = *rng.pick(&[40, 300]);
                for _ in 0..if many { rng.range(10, most) } else { [1, 1, 2, 3, 5][rng.below(5)] } {
                    let earlier: Vec<String> = k.injected.iter().chain(&k.gone).cloned().collect();
                    let mut v = new_value(rng, &k.trained, &earlier);
                    if !own.is_empty() && rng.chance(15) {
                        // more words, or more letters, of another one
                        let other = rng.pick(&own).clone();
                        v = match rng.below(3) {
                            0 => format!("{} {}", other, rng.pick(VALUES)),
                            1 => format!("{} {}", rng.pick(VALUES), other),
                            _ => format!("{}{}", other, rng.pick(&["s", "1", "é"])),
                        };
                    }
                    own.push(v.clone());
                    if !f.plain(&e, &v).is_empty() {
                        values.push((e.clone(), v));
                    }
                }
            }
            rng.shuffle(&mut values);
        }
        let vanilla = *rng.pick(&[None, Some(false), Some(true), Some(true)]);
        let given = rng.chance(40);
        let touched: BTreeSet<String> = values.iter().map(|v| v.0.clone()).collect();
        // what the others answer
        let others: Vec<String> = names.iter().filter(|n| !touched.contains(*n)).cloned().collect();
        let texts: Vec<String> = {
            let mut v: Vec<String> = (0..6).map(|_| spec.text(rng)).collect();
            v.extend(names.iter().map(|n| spec.slot_text(rng, n)));
            v
        };
        let answers = |res: &SharedResources| -> Vec<Result<Vec<Found>, String>> { others.iter().flat_map(|o| texts.iter().map(move |t| find(res, o, t))).collect() };
        let before = answers(&st.res);
        st.history.push(json!({"values": values, "from_vanilla": vanilla, "shared_resources": given}));
        match inject(&spelled(rng, &dir), &values, vanilla, if given { Some(st.res.clone()) } else { None }) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return ctx.fail(format!("an injection is refused: {}", e), json!({"history": st.history, "spec": brief(&spec)})),
            Err(p) => return ctx.fail(format!("an injection panics: {}", p), json!({"history": st.history, "spec": brief(&spec)})),
        }
        ctx.count("injections");
        if values.len() > 30 {
            ctx.count("injections_of_many_values");
        }
        for e in &touched {
            let k = st.known.get_mut(e).unwrap();
            if vanilla == Some(true) {
                let old = std::mem::take(&mut k.injected);
                k.gone.extend(old);
                ctx.count("from_vanilla");
            }
        }
        for (e, v) in &values {
            let k = st.known.get_mut(e).unwrap();
            k.injected.push(v.clone());
            k.gone.retain(|g| g != v);
        }
        st.engine = match load(ctx, &spec, &dir) {
            Some(e) => e,
            None => return,
        };
        st.res = shared(&spec, &dir);
        if answers(&st.res) != before {
            return ctx.fail("an entity that was not injected answers otherwise", json!({"history": st.history, "spec": brief(&spec)}));
        }
        ctx.add("answers_of_others", before.len() as u64);
        if !st.check(ctx, rng) {
            return;
        }
        ctx.sample(|| json!({"injection": st.history.last(), "usage": spec.custom_usage}));
    }
    let _ = fs::remove_dir_all(&dir);
}

// ---------------------------------------------------------------- C18

fn not_injectable(spec: &Spec, rng: &mut Rng) -> (String, &'static str) {
    let have: BTreeSet<String> = injectable(spec).into_iter().collect();
    loop {
        let (e, what) = match rng.below(4) {
            0 => (rng.pick(&["nope", "", "color ", "COLOR", "snips", "snips/", "snips/unknown", "snips/musicartist", "musicArtist", "été ", "%COLOR%"]).to_string(), "unknown"),
            1 | 2 => (rng.pick(&["snips/number", "snips/datetime", "snips/ordinal", "snips/date", "snips/duration", "snips/temperature", "snips/percentage", "snips/amountOfMoney", "snips/timePeriod"]).to_string(), "grammar"),
            _ => (rng.pick(&["snips/musicArtist", "snips/city", "snips/country", "snips/region", "snips/musicAlbum", "snips/musicTrack"]).to_string(), "absent"),
        };
        if !have.contains(&e) {
            return (e, what);
        }
    }
}

/// Runs with files limited to some bytes each: what does not fit cannot be written.
fn with_room<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: bytes, rlim_max: old.rlim_max });
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

pub fn c18(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = Spec::generate(rng, &Opts::default());
    let dir = ctx.odd_dir(rng, "inject");
    // an entity of the dataset without values
    let hollow = rng.chance(30);
    if hollow {
        spec.entities.push(Entity { name: "hollow".into(), extensible: true, values: vec![("x".into(), "x".into())] });
    }
    spec.write(&dir);
    if hollow {
        let p = dir.join("custom_entity_parser/parser/metadata.json");
        let mut v = read_json(&p);
        v["parsers_metadata"].as_array_mut().unwrap().retain(|m| m["entity_identifier"] != json!("hollow"));
        write_json(&p, &v);
        spec.entities.pop();
    }
    let spec = spec;
    let names = injectable(&spec);
    let gaz: Vec<(String, String)> = {
        // entity, directory of its parser
        let mut v: Vec<(String, String)> = spec.entities.iter().enumerate().map(|(i, e)| (e.name.clone(), format!("custom_entity_parser/parser/parser_{}", i + 1))).collect();
        v.extend(spec.bgaz.iter().enumerate().map(|(i, b)| (b.0.clone(), format!("builtin_entity_parser/gazetteer_entity_parser/parser_{}", i + 1))));
        v
    };
    let sound_res = shared(&spec, &dir);
    for _ in 0..25 {
        let mut values: Vec<(String, String)> = vec![];
        for _ in 0..rng.range(1, 5) {
            values.push((rng.pick(&names).clone(), new_value(rng, &[], &[])));
        }
        let vanilla = *rng.pick(&[None, Some(false), Some(true)]);
        let mut given = if rng.chance(50) { Some(sound_res.clone()) } else { None };
        let touched: BTreeSet<String> = values.iter().map(|v| v.0.clone()).collect();
        let custom = touched.iter().any(|t| !is_builtin(t));
        let mut saved: Vec<(std::path::PathBuf, Vec<u8>)> = vec![];
        let mut keep = |f: &str| {
            let p = dir.join(f);
            let data = fs::read(&p).unwrap();
            saved.push((p.clone(), data.clone()));
            (p, data)
        };
        let mut room: Option<u64> = None;
        // (what, may be said not injectable, may be said internal)
        let (what, entity_error, internal_error): (String, bool, bool) = match rng.below(12) {
            0..=3 => {
                let (e, what) = if hollow && rng.chance(25) { ("hollow".to_string(), "without values") } else { not_injectable(&spec, rng) };
                let n = rng.range(1, 2);
                for _ in 0..n {
                    let at = rng.below(values.len() + 1);
                    values.insert(at, (e.clone(), new_value(rng, &[], &[])));
                }
                if rng.chance(25) {
                    values.retain(|v| v.0 == e);
                }
                (format!("{} entity {:?}", what, e), true, false)
            }
            4..=6 => {
                // a file that the injection needs
                let mut files = vec!["nlu_engine.json".to_string(), "builtin_entity_parser/metadata.json".into(), "custom_entity_parser/metadata.json".into(), "custom_entity_parser/parser/metadata.json".into()];
                if !spec.bgaz.is_empty() {
                    files.push("builtin_entity_parser/gazetteer_entity_parser/metadata.json".into());
                }
                if given.is_none() {
                    files.push(format!("resources/{}/metadata.json", spec.lang));
                }
                for (e, d) in &gaz {
                    if touched.contains(e) || given.is_none() {
                        for f in ["metadata.json", "parser"] {
                            // those of the request weigh more
                            for _ in 0..if touched.contains(e) { 3 } else { 1 } {
                                files.push(format!("{}/{}", d, f));
                            }
                        }
                    }
                }
                let file = rng.pick(&files).clone();
                let (p, data) = keep(&file);
                let how = if rng.chance(35) {
                    fs::remove_file(&p).unwrap();
                    "missing"
                } else {
                    fs::write(&p, break_json(&data, rng)).unwrap();
                    "malformed"
                };
                (format!("{} {}", file, how), false, true)
            }
            7 => {
                let (f, k, v) = rng
                    .pick(&[
                        ("nlu_engine.json", "/dataset_metadata/language_code", json!("xx")),
                        ("nlu_engine.json", "/custom_entity_parser", json!("missing")),
                        ("nlu_engine.json", "/builtin_entity_parser", json!("missing")),
                        ("nlu_engine.json", "/dataset_metadata", Value::Null),
                        ("custom_entity_parser/metadata.json", "/parser_directory", json!("missing")),
                        ("custom_entity_parser/metadata.json", "/parser_usage", json!(3)),
                        ("custom_entity_parser/metadata.json", "/parser_directory", Value::Null),
                        ("custom_entity_parser/parser/metadata.json", "/parsers_metadata", Value::Null),
                        ("builtin_entity_parser/metadata.json", "/gazetteer_parser", json!("missing")),
                    ])
                    .clone();
                let (p, _) = keep(f);
                let mut x = read_json(&p);
                let ok = if v.is_null() { unset(&mut x, k) } else { set(&mut x, k, v.clone()) };
                if !ok {
                    continue;
                }
                write_json(&p, &x);
                (format!("{} with {} for {}", f, v, k), false, true)
            }
            8 => {
                // a stemmer that is required and missing
                if spec.custom_usage == 1 || !custom {
                    continue;
                }
                if given.is_some() {
                    given = Some(Arc::new(SharedResources {
                        builtin_entity_parser: sound_res.builtin_entity_parser.clone(),
                        custom_entity_parser: sound_res.custom_entity_parser.clone(),
                        gazetteers: sound_res.gazetteers.clone(),
                        stemmer: None,
                        word_clusterers: sound_res.word_clusterers.clone(),
                        stop_words: sound_res.stop_words.clone(),
                    }));
                } else {
                    let (p, _) = keep(&format!("resources/{}/metadata.json", spec.lang));
                    let mut x = read_json(&p);
                    unset(&mut x, "/stems");
                    write_json(&p, &x);
                }
                ("no stemmer".to_string(), false, true)
            }
            9 => {
                // values that cannot be written
                vmon::fail_nth(Some("dump"), rng.range(1, touched.len()) as u64);
                ("a parser is not dumped".to_string(), false, true)
            }
            10 => {
                // a disk that is full, at once or after some bytes
                let sizes: Vec<u64> = gaz.iter().filter(|g| touched.contains(&g.0)).flat_map(|g| fs::metadata(dir.join(&g.1).join("parser"))).map(|m| m.len()).collect();
                let most = sizes.into_iter().max().unwrap_or(1);
                room = Some(if rng.chance(50) { rng.below(90) as u64 } else { most + rng.below(60) as u64 });
                ("no room".to_string(), false, true)
            }
            _ => {
                // a parser that refuses its new values
                vmon::fail_nth(Some("inject"), rng.range(1, touched.len()) as u64);
                ("a parser refuses".to_string(), false, true)
            }
        };
        let before = listing(&dir);
        let path = spelled(rng, &dir);
        let r = match room {
            Some(n) => with_room(n, || inject(&path, &values, vanilla, given.clone())),
            None => inject(&path, &values, vanilla, given.clone()),
        };
        vmon::clear_faults();
        let after = listing(&dir);
        for (p, data) in saved {
            fs::write(p, data).unwrap();
        }
        let about = || json!({"damage": what, "values": values, "from_vanilla": vanilla, "shared_resources": given.is_some(), "usage": spec.custom_usage});
        let e = match r {
            Err(p) => return ctx.fail(format!("an injection panics: {}", p), about()),
            Ok(Ok(())) if room.map_or(false, |n| n >= 90) => {
                ctx.count("room_enough");
                continue;
            }
            Ok(Ok(())) => return ctx.fail("an injection that must be refused is accepted", about()),
            Ok(Err(e)) => e,
        };
        let m = e.to_string();
        let ok = entity_error && m.contains("not injectable") || internal_error && m.contains("Internal injection error");
        if !ok {
            return ctx.fail(format!("the refusal is of the wrong kind: {}", m), about());
        }
        if before != after {
            let changed: Vec<String> = before.iter().filter(|x| !after.contains(x)).chain(after.iter().filter(|x| !before.contains(x))).map(|x| x.0.clone()).collect();
            return ctx.fail(format!("a refused injection changes {:?}", changed), about());
        }
        ctx.count(if entity_error { "not_injectable" } else { "internal" });
        if what.ends_with("refuses") || what.ends_with("dumped") || what.ends_with("room") || what.ends_with("stemmer") || what.ends_with("missing") || what.ends_with("malformed") {
            ctx.count(&format!("damage_{}", what.split(' ').last().unwrap()));
        }
        ctx.add("files_compared", before.len() as u64);
        ctx.eval(Some((what.clone(), touched.len(), given.is_some(), spec.custom_usage)));
        ctx.sample(|| json!({"damage": what, "error": m}));
    }
    // nothing to inject
    let before = listing(&dir);
    match inject(&dir, &[], Some(true), None) {
        Ok(Ok(())) if listing(&dir) == before => (),
        r => ctx.fail("an empty injection is refused or changes files", json!(format!("{:?}", r))),
    }
    match guard(|| SnipsNluEngine::from_path(&dir)) {
        Ok(Ok(_)) => (),
        r => ctx.fail(format!("the engine does not load after refused injections: {:?}", r.map(|r| r.err().map(|e| e.to_string()))), brief(&spec)),
    }
    let _ = fs::remove_dir_all(&dir);
}
