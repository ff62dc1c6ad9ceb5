//! Checks of the engine and of the pattern and lookup parsers on synthetic engines.
use crate::core::*;
use crate::refm::*;
use crate::world::*;
use serde_json::{json, Value};
use snips_nlu_lib::{
    load_shared_resources, DeterministicIntentParser, IntentParser, LookupIntentParser, ProbabilisticIntentParser, SharedResources, SnipsNluEngine,
};
use snips_nlu_ontology::{IntentClassifierResult, IntentParserResult, Slot, SlotValue};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct World {
    pub spec: Spec,
    pub dir: PathBuf,
    pub refm: Refm,
    pub engine: SnipsNluEngine,
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn brief(spec: &Spec) -> Value {
    json!({
        "lang": spec.lang,
        "parsers": spec.parsers.iter().map(|k| format!("{:?}", k)).collect::<Vec<_>>(),
        "intents": spec.intents.iter().map(|i| json!({"name": i.name, "slots": i.slots, "utterances": i.utts.iter().map(|u| u.iter().map(|c| match c {
            Chunk::Text(t) => t.clone(), Chunk::Slot(s) => format!("[{}]", s)}).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "entities": spec.entities.iter().map(|e| json!([e.name, e.extensible, e.values])).collect::<Vec<_>>(),
        "stop_words": spec.stop_words, "whitelist": spec.whitelist, "ignore": [spec.det_ignore, spec.lk_ignore],
    })
}

pub fn load(ctx: &mut Ctx, spec: &Spec, dir: &Path) -> Option<SnipsNluEngine> {
    match guard(|| SnipsNluEngine::from_path(dir)) {
        Ok(Ok(e)) => Some(e),
        Ok(Err(e)) => {
            ctx.fail(format!("a sound model is refused: {}", e), brief(spec));
            None
        }
        Err(p) => {
            ctx.fail(format!("loading a sound model panics: {}", p), brief(spec));
            None
        }
    }
}

pub fn world_of(ctx: &mut Ctx, spec: Spec) -> Option<World> {
    let dir = ctx.fresh_dir("w");
    spec.write(&dir);
    let engine = load(ctx, &spec, &dir)?;
    let refm = Refm::new(&spec, &dir);
    Some(World { spec, dir, refm, engine })
}

pub fn world(ctx: &mut Ctx, rng: &mut Rng, o: &Opts) -> Option<World> {
    let spec = Spec::generate(rng, o);
    world_of(ctx, spec)
}

pub fn shared(spec: &Spec, dir: &Path) -> Arc<SharedResources> {
    let v = crate::load_checks::read_json(&dir.join("nlu_engine.json"));
    let named = |k: &str| dir.join(v[k].as_str().unwrap());
    sound(load_shared_resources(dir.join("resources").join(&spec.lang), named("builtin_entity_parser"), named("custom_entity_parser")))
}

pub fn parser(dir: &Path, k: Kind, res: &Arc<SharedResources>) -> Box<dyn IntentParser> {
    parser_at(dir.join(Spec::parser_dir(k)), k, res)
}

fn parser_at(d: std::path::PathBuf, k: Kind, res: &Arc<SharedResources>) -> Box<dyn IntentParser> {
    match k {
        Kind::Lookup => Box::new(sound(LookupIntentParser::from_path(d, res.clone()))),
        Kind::Det => Box::new(sound(DeterministicIntentParser::from_path(d, res.clone()))),
        Kind::Prob => Box::new(sound(ProbabilisticIntentParser::from_path(d, res.clone()))),
    }
}

pub fn parsers(spec: &Spec, dir: &Path) -> Vec<Box<dyn IntentParser>> {
    let res = shared(spec, dir);
    spec.parsers.iter().map(|k| parser(dir, *k, &res)).collect()
}

/// The parsers of a world, at times with some more of them, in any order: the same kinds, with
/// some of the utterances only.
fn more_parsers(ctx: &mut Ctx, rng: &mut Rng, w: &mut World) -> Option<Vec<Box<dyn IntentParser>>> {
    if !rng.chance(25) {
        return Some(parsers(&w.spec, &w.dir));
    }
    let mut all: Vec<(Kind, String)> = w.spec.parsers.iter().map(|k| (*k, Spec::parser_dir(*k).to_string())).collect();
    let most = if rng.chance(20) { 9 } else { 3 };
    for n in 0..rng.range(1, most) {
        let mut s = w.spec.clone();
        let k = *rng.pick(&[Kind::Lookup, Kind::Det, Kind::Prob]);
        s.parsers = vec![k];
        let share = *rng.pick(&[0, 20, 50, 80]);
        for i in &mut s.intents {
            i.utts = rng.subset(&i.utts, share);
        }
        let d = ctx.fresh_dir("more");
        s.write(&d);
        let name = format!("parser {}", n);
        std::fs::rename(d.join(Spec::parser_dir(k)), w.dir.join(&name)).unwrap();
        let _ = std::fs::remove_dir_all(&d);
        all.push((k, name));
    }
    rng.shuffle(&mut all);
    let p = w.dir.join("nlu_engine.json");
    let mut v = crate::load_checks::read_json(&p);
    v["intent_parsers"] = json!(all.iter().map(|a| &a.1).collect::<Vec<_>>());
    std::fs::write(&p, v.to_string()).unwrap();
    w.engine = load(ctx, &w.spec, &w.dir)?;
    ctx.count("models_of_more_parsers");
    w.spec.parsers = all.iter().map(|a| a.0).collect();
    let res = shared(&w.spec, &w.dir);
    Some(all.iter().map(|(k, d)| parser_at(w.dir.join(d), *k, &res)).collect())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Query {
    Parse { text: String, white: Option<Vec<String>>, black: Option<Vec<String>>, intents: usize, slots: usize },
    Intents { text: String },
    Slots { text: String, intent: String, n: usize },
    Extract { text: String, intent: String, slot: String, n: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Parse(IntentParserResult),
    Intents(Vec<IntentClassifierResult>),
    Slots(Vec<Slot>),
    Extract(Option<Slot>),
    Error(String),
}

impl Answer {
    pub fn is_error(&self) -> bool {
        matches!(self, Answer::Error(_))
    }
}

pub fn strs(v: &Option<Vec<String>>) -> Option<Vec<&str>> {
    v.as_ref().map(|v| v.iter().map(|s| &**s).collect())
}

/// Err: the panic message
pub fn ask(e: &SnipsNluEngine, q: &Query) -> Result<Answer, String> {
    // without alternatives there is a short form of each question: every other text takes it
    let short = text_of(q).chars().count() % 2 == 0;
    guard(|| match q {
        Query::Parse { text, white, black, intents: 0, slots: 0 } if short => {
            e.parse(text, strs(white), strs(black)).map(Answer::Parse).unwrap_or_else(|e| Answer::Error(e.to_string()))
        }
        Query::Slots { text, intent, n: 0 } if short => e.get_slots(text, intent).map(Answer::Slots).unwrap_or_else(|e| Answer::Error(e.to_string())),
        Query::Extract { text, intent, slot, n: 0 } if short => {
            e.extract_slot(text.clone(), intent, slot).map(Answer::Extract).unwrap_or_else(|e| Answer::Error(e.to_string()))
        }
        Query::Parse { text, white, black, intents, slots } => e
            .parse_with_alternatives(text, strs(white), strs(black), *intents, *slots)
            .map(Answer::Parse)
            .unwrap_or_else(|e| Answer::Error(e.to_string())),
        Query::Intents { text } => e.get_intents(text).map(Answer::Intents).unwrap_or_else(|e| Answer::Error(e.to_string())),
        Query::Slots { text, intent, n } => {
            e.get_slots_with_alternatives(text, intent, *n).map(Answer::Slots).unwrap_or_else(|e| Answer::Error(e.to_string()))
        }
        Query::Extract { text, intent, slot, n } => e
            .extract_slot_with_alternatives(text.clone(), intent, slot, *n)
            .map(Answer::Extract)
            .unwrap_or_else(|e| Answer::Error(e.to_string())),
    })
}

pub fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-5 || (a.is_nan() && b.is_nan())
}

/// equal up to the order of entries with equal confidence
pub fn same(a: &Answer, b: &Answer) -> bool {
    match (a, b) {
        (Answer::Parse(a), Answer::Parse(b)) => {
            a.input == b.input
                && a.intent.intent_name == b.intent.intent_name
                && close(a.intent.confidence_score, b.intent.confidence_score)
                && a.slots == b.slots
                && a.alternatives.len() == b.alternatives.len()
                && a.alternatives.iter().zip(&b.alternatives).all(|(x, y)| close(x.intent.confidence_score, y.intent.confidence_score))
                && a.alternatives.iter().all(|x| {
                    match b.alternatives.iter().find(|y| y.intent.intent_name == x.intent.intent_name) {
                        Some(y) => x.slots == y.slots && close(x.intent.confidence_score, y.intent.confidence_score),
                        // entries of equal confidence at the cut may differ
                        None => b.alternatives.last().map_or(false, |l| close(l.intent.confidence_score, x.intent.confidence_score)),
                    }
                })
        }
        (Answer::Intents(a), Answer::Intents(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| close(x.confidence_score, y.confidence_score))
                && a.iter().all(|x| b.iter().any(|y| x.intent_name == y.intent_name && close(x.confidence_score, y.confidence_score)))
        }
        (Answer::Slots(a), Answer::Slots(b)) => a == b,
        (Answer::Extract(a), Answer::Extract(b)) => a == b,
        (Answer::Error(_), Answer::Error(_)) => true,
        _ => false,
    }
}

pub fn random_filter(rng: &mut Rng, spec: &Spec, unknown: bool) -> Option<Vec<String>> {
    let names: Vec<String> = spec.intents.iter().map(|i| i.name.clone()).collect();
    match rng.below(6) {
        0 | 1 => None,
        2 => Some(vec![]),
        3 => Some(names),
        _ => {
            // few of them, or many
            let share = if names.len() > 8 { rng.range(10, 95) } else { 50 };
            let mut v = rng.subset(&names, share);
            rng.shuffle(&mut v);
            if unknown && rng.chance(15) {
                let base = names[0].clone();
                let bad = rng.pick(&["nope".to_string(), String::new(), base.to_uppercase() + "_", " ".to_string()]).clone();
                let at = rng.below(v.len() + 1);
                v.insert(at, bad);
            }
            if rng.chance(10) && !v.is_empty() {
                let d = v[0].clone();
                v.push(d);
            }
            Some(v)
        }
    }
}

pub fn allowed(spec: &Spec, white: &Option<Vec<String>>, black: &Option<Vec<String>>) -> Result<Option<Vec<String>>, ()> {
    let known = |v: &Option<Vec<String>>| v.iter().flatten().all(|n| spec.intents.iter().any(|i| i.name == *n));
    if !known(white) || !known(black) {
        return Err(());
    }
    if white.is_none() && black.is_none() {
        return Ok(None);
    }
    Ok(Some(
        spec.intents
            .iter()
            .map(|i| i.name.clone())
            .filter(|n| white.as_ref().map_or(true, |w| w.contains(n)) && black.as_ref().map_or(true, |b| !b.contains(n)))
            .collect(),
    ))
}

/// the lookup parser tries all the subsets of the entities: texts with too many are left out
pub fn fits(w: &World, text: &str, max: usize) -> bool {
    let n = w.refm.load_of(text);
    if w.spec.parsers.contains(&Kind::Prob) {
        // the features of a token may need the whole text; for the clusters see `cubic`
        let clusters = w.spec.classifier.tfidf.as_ref().map_or(false, |t| t.clusters.is_some());
        if tokens_of(&w.spec, text).len() > if clusters { 300 } else { 1000 } {
            return false;
        }
    }
    n <= max && (text.chars().count() * w.spec.intents.len()) << n <= 4_000_000
}

pub fn any_text(w: &World, rng: &mut Rng, hostile: usize) -> String {
    for _ in 0..20 {
        let t = if rng.chance(hostile) { w.spec.hostile(rng) } else { w.spec.text(rng) };
        if fits(w, &t, 10) {
            return t;
        }
    }
    "make".to_string()
}

pub fn random_query(w: &World, rng: &mut Rng, text: String) -> Query {
    query_about(w, rng, text, &(0..w.spec.intents.len()).collect::<Vec<_>>())
}

/// few alternatives, at times many
pub fn how_many(rng: &mut Rng, few: usize) -> usize {
    match rng.below(200) {
        0 => *rng.pick(&[1000, std::u32::MAX as usize, std::usize::MAX]),
        1..=30 => rng.below(14),
        _ => rng.below(few),
    }
}

/// an intent and those with the most similar slots
fn siblings(spec: &Spec, rng: &mut Rng, n: usize) -> Vec<usize> {
    let a = rng.below(spec.intents.len());
    let mut others: Vec<usize> = (0..spec.intents.len()).filter(|i| *i != a).collect();
    let shared = |i: usize| spec.intents[i].slots.iter().filter(|s| spec.intents[a].slots.contains(s)).count();
    others.sort_by_key(|i| std::cmp::Reverse(shared(*i)));
    std::iter::once(a).chain(others.into_iter().take(n)).collect()
}

fn query_about(w: &World, rng: &mut Rng, text: String, intents: &[usize]) -> Query {
    let intent = if rng.chance(8) { "unknown intent".to_string() } else { w.spec.intents[*rng.pick(intents)].name.clone() };
    match rng.below(10) {
        0..=4 => Query::Parse { text, white: random_filter(rng, &w.spec, true), black: random_filter(rng, &w.spec, true), intents: how_many(rng, 4), slots: how_many(rng, 3) },
        5 => Query::Intents { text },
        6 | 7 => Query::Slots { text, intent, n: how_many(rng, 3) },
        _ => {
            let slot = match w.spec.intents.iter().find(|i| i.name == intent) {
                Some(i) if !i.slots.is_empty() && rng.chance(90) => rng.pick(&i.slots).0.clone(),
                _ => rng.pick(SLOT_NAMES).to_string(),
            };
            Query::Extract { text, intent, slot, n: how_many(rng, 3) }
        }
    }
}

pub fn all_slots(a: &Answer) -> Vec<(&[Slot], &'static str)> {
    match a {
        Answer::Parse(r) => {
            let mut v: Vec<(&[Slot], &'static str)> = vec![(&r.slots[..], "the result")];
            v.extend(r.alternatives.iter().map(|a| (&a.slots[..], "an alternative")));
            v
        }
        Answer::Slots(s) => vec![(&s[..], "the slots")],
        Answer::Extract(Some(s)) => vec![(std::slice::from_ref(s), "the extracted slot")],
        _ => vec![],
    }
}

pub fn text_of(q: &Query) -> &str {
    match q {
        Query::Parse { text, .. } | Query::Intents { text } | Query::Slots { text, .. } | Query::Extract { text, .. } => text,
    }
}

fn short(s: &str) -> String {
    if s.chars().count() > 400 {
        format!("{}... ({} chars)", s.chars().take(400).collect::<String>(), s.chars().count())
    } else {
        s.to_string()
    }
}

pub fn about(spec: &Spec, q: &Query, a: &dyn std::fmt::Debug) -> Value {
    json!({"world": brief(spec), "query": short(&format!("{:?}", q)), "answer": short(&format!("{:?}", a))})
}

/// asks, and reports a panic
pub fn ask_or_fail(ctx: &mut Ctx, w: &World, q: &Query) -> Option<Answer> {
    match ask(&w.engine, q) {
        Ok(a) => Some(a),
        Err(p) => {
            ctx.fail(format!("panic: {}", p), about(&w.spec, q, &""));
            None
        }
    }
}

pub fn c01(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_intents: 5, ..Opts::default() };
    let w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    for _ in 0..30 {
        let text = match rng.below(12) {
            0 => String::new(),
            1 => any_text(&w, rng, 100),
            _ => any_text(&w, rng, 0),
        };
        let white = random_filter(rng, &w.spec, true);
        let black = random_filter(rng, &w.spec, true);
        let q = Query::Parse { text: text.clone(), white: white.clone(), black: black.clone(), intents: rng.below(7), slots: rng.below(2) };
        let a = match ask_or_fail(ctx, &w, &q) {
            Some(a) => a,
            None => return,
        };
        let free = match ask(&w.engine, &Query::Parse { text, white: None, black: None, intents: 0, slots: 0 }) {
            Ok(Answer::Parse(r)) => r.intent.intent_name,
            _ => None,
        };
        match (&a, allowed(&w.spec, &white, &black)) {
            (Answer::Error(_), Err(())) => {
                ctx.count("unknown_filter_refused");
                ctx.eval(Some(("unknown", &white, &black)));
            }
            (_, Err(())) => return ctx.fail("a filter with an unknown intent is accepted", about(&w.spec, &q, &a)),
            (Answer::Error(e), Ok(_)) => return ctx.fail(format!("a query with known filters fails: {}", e), about(&w.spec, &q, &a)),
            (Answer::Parse(r), Ok(set)) => {
                let ok = |n: &Option<String>| match (n, &set) {
                    (None, _) | (_, None) => true,
                    (Some(n), Some(set)) => set.contains(n),
                };
                if !ok(&r.intent.intent_name) {
                    return ctx.fail("the intent is excluded by the filters", about(&w.spec, &q, &a));
                }
                if let Some(x) = r.alternatives.iter().find(|x| !ok(&x.intent.intent_name)) {
                    return ctx.fail(format!("the alternative {:?} is excluded by the filters", x.intent.intent_name), about(&w.spec, &q, &a));
                }
                if set.as_ref().map_or(false, |s| s.is_empty()) {
                    ctx.count("nothing_allowed");
                    if r.intent.intent_name.is_some() || !r.slots.is_empty() {
                        return ctx.fail("an intent or slots although none is allowed", about(&w.spec, &q, &a));
                    }
                }
                if r.intent.intent_name.is_none() && !r.slots.is_empty() {
                    return ctx.fail("slots without an intent", about(&w.spec, &q, &a));
                }
                let excluded = free.is_some() && !ok(&free);
                if excluded {
                    ctx.count("best_intent_excluded");
                }
                if !r.alternatives.is_empty() {
                    ctx.count("with_alternatives");
                }
                let nontrivial = set.is_some() && (free.is_some() || !r.alternatives.is_empty());
                ctx.eval(if nontrivial { Some((&r.input, &white, &black, w.spec.parsers.clone())) } else { None });
                if excluded {
                    ctx.sample(|| json!({"text": r.input, "white": white, "black": black, "unfiltered": free, "filtered": r.intent.intent_name}));
                }
            }
            _ => unreachable!(),
        }
    }
}

/// tags the tagger could emit for an intent's filler
pub fn random_tags(rng: &mut Rng, spec: &Spec, n: usize, foreign: bool) -> Vec<String> {
    let f = rng.pick(&spec.fillers);
    let mut names: Vec<String> = f.slots.iter().map(|s| s.0.clone()).collect();
    if foreign && rng.chance(10) {
        names.push("nobody".to_string());
    }
    if names.is_empty() {
        return vec!["O".to_string(); n];
    }
    // any tagger of the engine may have to emit them: L- and U- are no marks of the BIO scheme
    let bio = spec.fillers.iter().any(|f| f.scheme == 1);
    let prefixes: &[&str] = match f.scheme {
        0 => &["I-"],
        1 => &["B-", "I-"],
        _ if bio && !foreign => &["B-", "I-"],
        _ => &["B-", "I-", "L-", "U-"],
    };
    (0..n).map(|_| if rng.chance(35) { "O".to_string() } else { format!("{}{}", rng.pick(prefixes), rng.pick(&names)) }).collect()
}

/// A text with an entity value, and tags for the words of another value that is a part of it (or for
/// the value itself): the place found by the tagger is not one where the entity parser finds something.
pub fn cut_value(rng: &mut Rng, spec: &Spec) -> Option<(String, String, Vec<String>)> {
    let fillers: Vec<_> = spec.fillers.iter().filter(|f| f.has_model && f.slots.iter().any(|s| !is_builtin(&s.1))).collect();
    if fillers.is_empty() {
        return None;
    }
    let f = rng.pick(&fillers);
    let custom: Vec<_> = f.slots.iter().filter(|s| !is_builtin(&s.1)).collect();
    let (slot, entity) = rng.pick(&custom);
    let e = spec.entities.iter().find(|e| e.name == *entity)?;
    let short = rng.pick(&e.values).0.clone();
    let within = |v: &str| format!(" {} ", v).contains(&format!(" {} ", short));
    let long: Vec<String> = spec.entities.iter().flat_map(|e| e.values.iter()).map(|v| v.0.clone()).filter(|v| within(v) && *v != short).collect();
    let long = if long.is_empty() { short.clone() } else { rng.pick(&long).clone() };
    let padding = |rng: &mut Rng| (0..rng.below(3)).map(|_| rng.pick(CARRIERS).to_string()).collect::<Vec<_>>();
    let mut words = padding(rng);
    words.push(long);
    words.extend(padding(rng));
    let text = words.join(" ");
    let tokens = tokens_of(spec, &text);
    let wanted: Vec<String> = tokens_of(spec, &short).into_iter().map(|t| t.value).collect();
    if wanted.is_empty() {
        return None;
    }
    let at = (0..tokens.len()).find(|k| *k + wanted.len() <= tokens.len() && wanted.iter().enumerate().all(|(i, w)| tokens[k + i].value == *w))?;
    let last = at + wanted.len() - 1;
    let tags = (0..tokens.len() + 5)
        .map(|k| {
            if k < at || k > last {
                return "O".to_string();
            }
            let mark = match (f.scheme, k == at, k == last) {
                (0, _, _) => "I",
                (1, true, _) => "B",
                (1, false, _) => "I",
                (_, true, true) => "U",
                (_, true, false) => "B",
                (_, false, true) => "L",
                _ => "I",
            };
            format!("{}-{}", mark, slot)
        })
        .collect();
    Some((text, f.intent.clone(), tags))
}

pub fn c02(ctx: &mut Ctx, rng: &mut Rng) {
    let o = if rng.chance(35) { Opts { kinds: vec![Kind::Det], value_patterns: 80, ..Opts::default() } } else { Opts::default() };
    let w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    for k in 0..40 {
        let text = if k == 0 && rng.chance(25) { w.spec.long(rng) } else { any_text(&w, rng, 35) };
        if !fits(&w, &text, 10) {
            continue;
        }
        let mut q = random_query(&w, rng, text.clone());
        if let Query::Extract { text, intent, slot, .. } = &mut q {
            if let Some(i) = w.spec.intents.iter().find(|i| i.name == *intent) {
                if let Some((_, e)) = i.slots.iter().find(|s| s.0 == *slot) {
                    *text = w.spec.slot_text(rng, e);
                }
            }
        }
        if rng.chance(20) {
            vmon::script_tags(Some(random_tags(rng, &w.spec, 40, false)));
        }
        let a = ask_or_fail(ctx, &w, &q);
        vmon::script_tags(None);
        let a = match a {
            Some(a) => a,
            None => return,
        };
        if let Answer::Parse(r) = &a {
            if r.input != text {
                return ctx.fail("the input is not carried back unchanged", about(&w.spec, &q, &a));
            }
        }
        let mut any = 0;
        let t = text_of(&q);
        for (slots, what) in all_slots(&a) {
            if let Err(m) = raw_ok(t, slots) {
                return ctx.fail(format!("in {}: {}", what, m), about(&w.spec, &q, &a));
            }
            any += slots.len();
        }
        ctx.add("slots_checked", any as u64);
        if !t.is_ascii() && any > 0 {
            ctx.count("results_with_slots_in_non_ascii_text");
        }
        ctx.eval(if any > 0 { Some((t.to_string(), any)) } else { None });
        if any > 1 {
            ctx.sample(|| json!({"text": short(t), "slots": short(&format!("{:?}", all_slots(&a)[0].0))}));
        }
    }
}

pub fn c03(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts::default()) {
        Some(w) => w,
        None => return,
    };
    // probes, answered first
    let probes: Vec<(Query, Answer)> = (0..4)
        .filter_map(|_| {
            let t = any_text(&w, rng, 0);
            let q = random_query(&w, rng, t);
            ask(&w.engine, &q).ok().map(|a| (q, a))
        })
        .collect();
    for k in 0..40 {
        let text = if k == 0 && rng.chance(20) { w.spec.long(rng) } else { any_text(&w, rng, 85) };
        if !fits(&w, &text, 10) {
            ctx.count("texts_left_out_for_too_many_entities");
            continue;
        }
        let q = random_query(&w, rng, text.clone());
        let scripted = rng.chance(20);
        if scripted {
            vmon::script_tags(Some(random_tags(rng, &w.spec, 40, true)));
        }
        let before = vmon::faults();
        if rng.chance(25) {
            let site = *rng.pick(&[None, Some("builtin"), Some("custom"), Some("tag")]);
            vmon::fail_nth(site, rng.range(1, 8) as u64);
        }
        let a = ask(&w.engine, &q);
        vmon::clear_faults();
        vmon::script_tags(None);
        let faulted = vmon::faults() > before;
        let a = match a {
            Ok(a) => a,
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
        };
        if faulted {
            ctx.count("queries_with_an_injected_fault");
            if !a.is_error() {
                return ctx.fail("an error of an underlying component is lost", about(&w.spec, &q, &a));
            }
        }
        if a.is_error() {
            ctx.count("answered_with_an_error");
        }
        // the engine still answers
        let (pq, pa) = rng.pick(&probes);
        match ask(&w.engine, pq) {
            Ok(x) if same(&x, pa) => {}
            Ok(x) => {
                return ctx.fail(
                    "after a query the engine answers another one differently",
                    json!({"world": brief(&w.spec), "after": short(&format!("{:?}", q)), "query": short(&format!("{:?}", pq)), "first": short(&format!("{:?}", pa)), "now": short(&format!("{:?}", x))}),
                )
            }
            Err(p) => return ctx.fail(format!("after a query the engine panics: {}", p), about(&w.spec, &q, &"")),
        }
        ctx.eval(Some((&text, std::mem::discriminant(&q), faulted, scripted)));
        ctx.sample(|| json!({"query": short(&format!("{:?}", q)), "answer": short(&format!("{:?}", a))}));
    }
    if ctx.case % 400 == 0 {
        exponential(ctx);
    }
    if ctx.case % 400 == 1 {
        cubic(ctx);
    }
}

/// Does the classifier with word clusters need memory growing with the cube of the number of words?
fn cubic(ctx: &mut Ctx) {
    let mut rng = Rng::new(1, "cubic", 0);
    let spec = loop {
        let s = Spec::generate(&mut rng, &Opts { kinds: vec![Kind::Prob], grand: 0, ..Opts::default() });
        let c = &s.classifier;
        if c.coeffs.is_some() && c.intercept.is_some() && c.tfidf.as_ref().map_or(false, |t| t.clusters.is_some()) && c.intent_list.len() > 1 {
            break s;
        }
    };
    let w = match world_of(ctx, spec) {
        Some(w) => w,
        None => return,
    };
    let mut cost = |n: usize| {
        let q = Query::Intents { text: vec!["zz"; n].join(" ") };
        let before = crate::alloc::allocated_bytes();
        let _ = ask(&w.engine, &q);
        (crate::alloc::allocated_bytes() - before) as f64
    };
    let (a, b, c) = (cost(100), cost(200), cost(400));
    ctx.eval(Some(("words in a text", 400)));
    if b / a > 4.5 && c / b > 6.0 {
        ctx.fail_key(
            "cluster-ngrams-cubic",
            format!("the memory for the word clusters of a text grows with the cube of its number of words ({} bytes for 400 words)", c),
            json!({"100": a, "200": b, "400": c}),
        );
    }
}

/// Does the work of the lookup parser double with each entity of the text?
fn exponential(ctx: &mut Ctx) {
    let mut rng = Rng::new(1, "exponential", 0);
    let mut spec = Spec::generate(&mut rng, &Opts { kinds: vec![Kind::Lookup], grand: 0, ..Opts::default() });
    spec.intents = vec![Intent {
        name: "Count".into(),
        slots: vec![("n".into(), "snips/number".into())],
        utts: vec![vec![Chunk::Text("count".into()), Chunk::Slot("n".into())]],
    }];
    spec.parsers = vec![Kind::Lookup];
    spec.whitelist.clear();
    let w = match world_of(ctx, spec) {
        Some(w) => w,
        None => return,
    };
    let mut cost = |n: usize| {
        let q = Query::Parse { text: vec!["two"; n].join(" "), white: None, black: None, intents: 0, slots: 0 };
        let before = crate::alloc::allocations();
        let _ = ask(&w.engine, &q);
        (crate::alloc::allocations() - before) as f64
    };
    let (a, b, c) = (cost(8), cost(10), cost(12));
    ctx.eval(Some(("entities in a text", 12)));
    if b / a > 3.0 && c / b > 3.0 {
        ctx.fail_key(
            "lookup-exponential",
            format!("the lookup parser's work doubles with each entity of the text ({} allocations for 12 entities)", c),
            json!({"8": a, "10": b, "12": c}),
        );
    }
}

pub fn c04(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts { max_intents: 6, ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    let ps = parsers(&w.spec, &w.dir);
    for _ in 0..30 {
        let text = if rng.chance(5) { String::new() } else { any_text(&w, rng, 15) };
        let q = Query::Intents { text: text.clone() };
        let a = match ask_or_fail(ctx, &w, &q) {
            Some(a) => a,
            None => return,
        };
        let list = match &a {
            Answer::Intents(l) => l,
            _ => return ctx.fail("listing the intents fails", about(&w.spec, &q, &a)),
        };
        let mut want: BTreeMap<Option<String>, f32> = BTreeMap::new();
        let mut per_parser: BTreeMap<Option<String>, BTreeSet<u32>> = BTreeMap::new();
        for (k, p) in w.spec.parsers.iter().zip(&ps) {
            let names: Vec<Option<String>> = match k {
                Kind::Prob => w.spec.classifier.intent_list.clone(),
                _ => w.spec.intents.iter().map(|i| Some(i.name.clone())).chain(Some(None)).collect(),
            };
            for n in names {
                want.entry(n).or_insert(0.0);
            }
            for r in p.get_intents(&text).unwrap() {
                per_parser.entry(r.intent_name.clone()).or_default().insert(r.confidence_score.to_bits());
                let e = want.entry(r.intent_name).or_insert(0.0);
                *e = e.max(r.confidence_score);
            }
        }
        let mut got: BTreeMap<Option<String>, f32> = BTreeMap::new();
        for r in list {
            if got.insert(r.intent_name.clone(), r.confidence_score).is_some() {
                return ctx.fail(format!("{:?} is listed twice", r.intent_name), about(&w.spec, &q, &a));
            }
            if !(r.confidence_score >= 0.0 && r.confidence_score <= 1.0) {
                return ctx.fail(format!("the confidence {} is not between 0 and 1", r.confidence_score), about(&w.spec, &q, &a));
            }
        }
        if list.windows(2).any(|p| p[0].confidence_score < p[1].confidence_score) {
            return ctx.fail("the list is not sorted by confidence", about(&w.spec, &q, &a));
        }
        for (n, c) in &want {
            match got.get(n) {
                None => return ctx.fail(format!("{:?} is not listed", n), about(&w.spec, &q, &a)),
                Some(g) if !close(*g, *c) => {
                    return ctx.fail(format!("the confidence of {:?} is {}, the highest of the parsers is {}", n, g, c), about(&w.spec, &q, &a))
                }
                _ => {}
            }
        }
        if let Some(n) = got.keys().find(|n| !want.contains_key(*n)) {
            return ctx.fail(format!("{:?} is listed and no parser knows it", n), about(&w.spec, &q, &a));
        }
        let disagree = per_parser.values().any(|s| s.len() > 1);
        if disagree {
            ctx.count("texts_where_parsers_disagree");
        }
        ctx.eval(if disagree || list.iter().any(|r| r.confidence_score > 0.0 && r.intent_name.is_some()) { Some((&text, w.spec.parsers.clone())) } else { None });
        if disagree {
            ctx.sample(|| json!({"text": text, "intents": format!("{:?}", list)}));
        }
    }
}

fn rslots_of<'a, I: Iterator<Item = (&'a str, &'a str, std::ops::Range<usize>)>>(it: I) -> Vec<RSlot> {
    it.map(|(n, e, r)| RSlot { name: n.to_string(), entity: e.to_string(), range: (r.start, r.end) }).collect()
}

fn pattern_parser(ctx: &mut Ctx, rng: &mut Rng, kind: Kind, stop_bias: bool) {
    let o = Opts { stop_percent: if stop_bias { 100 } else { 60 }, ambivalent: rng.range(0, 60), lengthy: 6, ..Opts::default() };
    let mut spec = Spec::generate(rng, &o);
    spec.parsers = vec![kind];
    if stop_bias {
        spec.det_ignore = rng.chance(85);
        spec.lk_ignore = rng.chance(85);
        if spec.stop_words.is_empty() {
            spec.stop_words = STOPS.iter().map(|s| s.to_string()).collect();
        }
        for i in &spec.intents {
            if rng.chance(60) {
                let words = rng.subset(&spec.stop_words, 40);
                spec.whitelist.insert(i.name.clone(), words);
            }
        }
        // utterances that differ by stop words only, in different intents
        if spec.intents.len() > 1 && rng.chance(60) {
            let a = rng.below(spec.intents.len());
            let b = rng.below(spec.intents.len());
            let mut u: Vec<Chunk> = vec![Chunk::Text(rng.pick(CARRIERS).to_string())];
            if rng.chance(60) {
                u.insert(0, Chunk::Text(rng.pick(&spec.stop_words).clone()));
            }
            u.push(Chunk::Text(rng.pick(&spec.stop_words).clone()));
            let v: Vec<Chunk> = u.iter().filter(|c| !matches!(c, Chunk::Text(t) if STOPS.contains(&&**t)) || rng.chance(50)).cloned().collect();
            spec.intents[a].utts.push(u);
            if !v.is_empty() {
                spec.intents[b].utts.push(v);
            }
        }
    }
    let w = match world_of(ctx, spec) {
        Some(w) => w,
        None => return,
    };
    let res = shared(&w.spec, &w.dir);
    let p = parser(&w.dir, kind, &res);
    let names: Vec<String> = w.spec.intents.iter().map(|i| i.name.clone()).collect();
    for _ in 0..30 {
        let n = rng.below(names.len());
        let mut truth = None;
        let mut text = match rng.below(10) {
            0..=5 => {
                let plain = rng.chance(20);
                let i = w.spec.instance(rng, n, plain);
                truth = Some((n, i.slots));
                i.text
            }
            6..=7 => w.spec.mutated(rng),
            8 => w.spec.soup(rng),
            _ => any_text(&w, rng, 100),
        };
        if stop_bias && rng.chance(60) {
            truth = None;
            let mut ws: Vec<String> = text.split(' ').map(str::to_string).collect();
            for _ in 0..rng.range(1, 3) {
                let is_stop = |x: &String| w.spec.stop_words.contains(&x.to_lowercase());
                if rng.chance(50) {
                    if let Some(k) = ws.iter().position(is_stop) {
                        ws.remove(k);
                    }
                } else {
                    let s = rng.pick(&w.spec.stop_words).clone();
                    let k = rng.below(ws.len() + 1);
                    ws.insert(k, crate::texts::random_case(rng, &s));
                }
            }
            text = ws.join(" ");
            ctx.count("texts_with_stop_words_changed");
        }
        // only the lookup parser combines entities
        let room = if let Kind::Det = kind { text.chars().count() < 1500 } else { fits(&w, &text, 9) };
        if !room {
            continue;
        }
        let mut filter: Option<Vec<String>> = if rng.chance(70) { None } else { Some(rng.subset(&names, 60)) };
        if let Some(f) = &mut filter {
            rng.shuffle(f);
        }
        let f: Option<Vec<&str>> = strs(&filter);
        let options = match kind {
            Kind::Det => w.refm.det_options(&text, f.as_ref().map(|x| &x[..])),
            _ => w.refm.lookup_options(&text, f.as_ref().map(|x| &x[..])),
        };
        let options = match options {
            Some(o) => o,
            None => {
                ctx.count("hash_collisions_or_many_ways_left_out");
                continue;
            }
        };
        let detail = |got: &str| json!({"world": brief(&w.spec), "text": short(&text), "filter": filter, "expected": format!("{:?}", options), "got": got});
        let wanted = match answers(&options) {
            Some(a) => a,
            None => {
                ctx.count("ambiguous_left_out");
                continue;
            }
        };
        let got = match guard(|| p.parse(&text, f.as_ref().map(|x| &x[..]))) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return ctx.fail(format!("the parser fails: {}", e), detail("")),
            Err(e) => return ctx.fail(format!("panic: {}", e), detail("")),
        };
        let slots = rslots_of(got.slots.iter().map(|s| (&*s.slot_name, &*s.entity, s.char_range.clone())));
        let ok = wanted.iter().any(|(i, c)| {
            close(*c, got.intent.confidence_score)
                && match i {
                    None => got.intent.intent_name.is_none() && slots.is_empty(),
                    Some((n, sets)) => got.intent.intent_name.as_ref() == Some(n) && sets.contains(&slots),
                }
        });
        if !ok {
            return ctx.fail("the parse is not the one the model defines", detail(&format!("{:?}", got)));
        }
        if let Some(s) = got.slots.iter().find(|s| sub(&text, &s.char_range) != s.value) {
            return ctx.fail(format!("the value {:?} is not the text at its range", s.value), detail(&format!("{:?}", got)));
        }
        if let Some((n, slots)) = &truth {
            ctx.count("instances");
            if options.len() == 1 && options[0].0 == names[*n] {
                ctx.count("instances_of_one_intent");
                if options[0].1.iter().any(|s| s.len() == slots.len() && s.iter().zip(slots).all(|(a, b)| a.name == b.0 && a.range == (b.1.start, b.1.end))) {
                    ctx.count("instances_with_the_generated_slots");
                }
            }
        }
        match options.len() {
            0 => ctx.count("no_intent"),
            1 => ctx.count("one_intent"),
            _ => ctx.count("several_intents"),
        }
        if !slots.is_empty() {
            ctx.count("results_with_slots");
        }
        // the ranking
        if filter.is_none() {
            let list = match guard(|| p.get_intents(&text)) {
                Ok(Ok(l)) => l,
                Ok(Err(e)) => return ctx.fail(format!("listing the intents fails: {}", e), detail("")),
                Err(e) => return ctx.fail(format!("panic: {}", e), detail("")),
            };
            let score = |n: &Option<String>| {
                let v: Vec<f32> = list.iter().filter(|r| r.intent_name == *n).map(|r| r.confidence_score).collect();
                if v.len() == 1 {
                    v[0]
                } else {
                    -1.0
                }
            };
            let choices = confidences(&options).unwrap();
            let ok = list.len() == names.len() + 1
                && score(&None) == 0.0
                && names.iter().filter(|n| !options.iter().any(|o| o.0 == **n)).all(|n| score(&Some(n.clone())) == 0.0)
                && choices.iter().any(|c| c.iter().enumerate().all(|(k, (_, conf))| close(score(&Some(options[k].0.clone())), *conf)));
            if !ok {
                return ctx.fail("the confidences are not proportional to 1/(1+number of slots)", detail(&format!("{:?}", list)));
            }
        }
        // the slots of one intent
        let intent = rng.pick(&names).clone();
        let only = match kind {
            Kind::Det => w.refm.det_options(&text, Some(&[&intent])),
            _ => w.refm.lookup_options(&text, Some(&[&intent])),
        };
        if let Some(only) = only {
            match guard(|| p.get_slots(&text, &intent)) {
                Ok(Ok(s)) => {
                    let s = rslots_of(s.iter().map(|s| (&*s.slot_name, &*s.entity, s.char_range.clone())));
                    let ok = if only.is_empty() { s.is_empty() } else { only[0].1.contains(&s) };
                    if !ok {
                        return ctx.fail(format!("the slots listed for {:?} are {:?}, expected one of {:?}", intent, s, only), detail(""));
                    }
                }
                Ok(Err(e)) => return ctx.fail(format!("listing the slots fails: {}", e), detail("")),
                Err(e) => return ctx.fail(format!("panic: {}", e), detail("")),
            }
        }
        ctx.eval(if options.is_empty() { None } else { Some((&text, options.len(), kind)) });
        if options.len() == 1 && slots.len() > 1 {
            ctx.sample(|| json!({"text": text, "intent": options[0].0, "slots": format!("{:?}", slots)}));
        }
    }
    if let Ok(Ok(_)) = guard(|| p.get_slots("make", "unknown intent")) {
        ctx.fail("an unknown intent is accepted", brief(&w.spec));
    }
}

pub fn c06(ctx: &mut Ctx, rng: &mut Rng) {
    pattern_parser(ctx, rng, Kind::Det, false)
}
pub fn c07(ctx: &mut Ctx, rng: &mut Rng) {
    pattern_parser(ctx, rng, Kind::Lookup, false)
}
pub fn c26(ctx: &mut Ctx, rng: &mut Rng) {
    let kind = if rng.chance(50) { Kind::Det } else { Kind::Lookup };
    pattern_parser(ctx, rng, kind, true)
}

/// A slot is what the parser found, with an admissible value. Err: why not.
fn resolved(w: &World, text: &str, found: &[(String, String, std::ops::Range<usize>)], got: &[Slot], n: usize, stats: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    let scope: Vec<String> = found.iter().map(|s| s.1.clone()).collect();
    let mut k = 0;
    for (name, entity, range) in found {
        let raw = sub(text, range);
        let options = w.refm.resolve(text, &raw, entity, range, n, &scope);
        let g = got.get(k);
        let value = g.filter(|g| g.slot_name == *name && g.range == *range && g.entity == *entity && g.raw_value == raw);
        let value = value.map(|g| (g.value.clone(), g.alternatives.clone()));
        let ok = match &value {
            Some(v) => options.iter().flatten().any(|o| o == v),
            None => false,
        };
        if ok {
            let (v, alts) = value.unwrap();
            *stats.entry(if is_builtin(entity) { "builtin_resolved" } else { "custom_resolved" }).or_insert(0) += 1;
            if !alts.is_empty() {
                *stats.entry("with_alternative_values").or_insert(0) += 1;
            }
            if alts.len() > n {
                return Err(format!("{} alternative values where {} were asked for", alts.len(), n));
            }
            if let SlotValue::Custom(s) = &v {
                if s.value != raw {
                    *stats.entry("reference_value_differs_from_raw").or_insert(0) += 1;
                }
            }
            k += 1;
        } else if options.contains(&None) {
            *stats.entry("dropped").or_insert(0) += 1;
        } else {
            return Err(format!("the slot {:?} of {:?} at {:?} should be {:?} and is {:?}", name, entity, range, options, g));
        }
    }
    if k != got.len() {
        return Err(format!("{} slots where {} were found", got.len(), k));
    }
    Ok(())
}

fn find(slots: &[(String, String, std::ops::Range<usize>)]) -> Vec<(String, String, std::ops::Range<usize>)> {
    slots.to_vec()
}

macro_rules! internal {
    ($slots:expr) => {
        find(&$slots.iter().map(|s| (s.slot_name.clone(), s.entity.clone(), s.char_range.clone())).collect::<Vec<_>>())
    };
}

fn cascade(ctx: &mut Ctx, rng: &mut Rng, resolution: bool) {
    let o = Opts { all_value_kinds: resolution && rng.chance(50), ambivalent: if resolution { 50 } else { 25 }, ..Opts::default() };
    let mut w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    let ps = match more_parsers(ctx, rng, &mut w) {
        Some(ps) => ps,
        None => return,
    };
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    for _ in 0..25 {
        let mut text = any_text(&w, rng, 10);
        let mut white = random_filter(rng, &w.spec, false);
        let mut black = random_filter(rng, &w.spec, false);
        let cut = if resolution && rng.chance(30) { cut_value(rng, &w.spec).filter(|c| fits(&w, &c.0, 10)) } else { None };
        if let Some((t, intent, _)) = &cut {
            text = t.clone();
            white = Some(vec![intent.clone()]);
            black = None;
        }
        let set = allowed(&w.spec, &white, &black).unwrap();
        let f = strs(&set);
        let n = if resolution { how_many(rng, 4) } else { rng.below(2) };
        let q = Query::Parse { text: text.clone(), white, black, intents: 0, slots: n };
        // tags a tagger might emit: they cut values in the middle, or name a slot that does not exist
        let scripted = rng.chance(if resolution { 50 } else { 25 });
        if let Some((_, _, tags)) = cut {
            vmon::script_tags(Some(tags));
            ctx.count("values_cut_by_the_tagger");
        } else if scripted {
            vmon::script_tags(Some(random_tags(rng, &w.spec, 40, !resolution)));
        }
        let mut expected: Result<(Option<String>, f32, Vec<(String, String, std::ops::Range<usize>)>), String> = Ok((None, 0.0, vec![]));
        let mut answered = ps.len();
        for (k, p) in ps.iter().enumerate() {
            match p.parse(&text, f.as_ref().map(|x| &x[..])) {
                Err(e) => {
                    expected = Err(e.to_string());
                    answered = k;
                    break;
                }
                Ok(r) => {
                    let found = r.intent.intent_name.is_some();
                    let slots = if found { internal!(r.slots) } else { vec![] };
                    expected = Ok((r.intent.intent_name, r.intent.confidence_score, slots));
                    if found {
                        answered = k;
                        break;
                    }
                }
            }
        }
        let a = ask(&w.engine, &q);
        vmon::script_tags(None);
        let a = match a {
            Ok(a) => a,
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
        };
        match (&expected, &a) {
            (Err(e), Answer::Error(_)) => {
                ctx.count("parser_errors");
                ctx.eval(Some(("error", e)));
            }
            (Err(e), _) => return ctx.fail(format!("the error of a parser that was reached is lost: {}", e), about(&w.spec, &q, &a)),
            (Ok(_), Answer::Error(e)) => return ctx.fail(format!("the parse fails although no parser that is reached does: {}", e), about(&w.spec, &q, &a)),
            (Ok((intent, conf, slots)), Answer::Parse(r)) => {
                if r.intent.intent_name != *intent || !close(r.intent.confidence_score, *conf) {
                    return ctx.fail(
                        format!("the answer is {:?} ({}), the first parser that finds an intent says {:?} ({})", r.intent.intent_name, r.intent.confidence_score, intent, conf),
                        about(&w.spec, &q, &a),
                    );
                }
                if !r.alternatives.is_empty() {
                    return ctx.fail("alternatives that were not asked for", about(&w.spec, &q, &a));
                }
                if let Err(m) = resolved(&w, &text, slots, &r.slots, n, &mut stats) {
                    return ctx.fail(m, about(&w.spec, &q, &a));
                }
                ctx.count(&format!("answered_by_parser_{}", if intent.is_some() { answered as i64 } else { -1 }));
                ctx.eval(if intent.is_some() && (!resolution || !slots.is_empty()) { Some((&text, answered, slots.len(), n)) } else { None });
                if slots.len() > 1 {
                    ctx.sample(|| json!({"text": text, "slots": format!("{:?}", r.slots)}));
                }
            }
            _ => unreachable!(),
        }
    }
    for (k, v) in stats {
        ctx.add(k, v);
    }
    if resolution {
        return;
    }
    // faults: a component that fails makes the parse fail, and only then
    for _ in 0..3 {
        let text = any_text(&w, rng, 5);
        let q = Query::Parse { text: text.clone(), white: None, black: None, intents: 0, slots: 0 };
        let e = match load(ctx, &w.spec, &w.dir) {
            Some(e) => e,
            None => return,
        };
        let c0 = vmon::calls();
        let clean = match ask(&e, &q) {
            Ok(a) => a,
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
        };
        let total = vmon::calls() - c0;
        let e = match load(ctx, &w.spec, &w.dir) {
            Some(e) => e,
            None => return,
        };
        let n = rng.range(1, total as usize + 3) as u64;
        let f0 = vmon::faults();
        vmon::fail_nth(None, n);
        let a = ask(&e, &q);
        vmon::clear_faults();
        let hit = vmon::faults() > f0;
        match a {
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
            Ok(a) if hit && !a.is_error() => return ctx.fail(format!("the failure of call {} of {} is lost", n, total), about(&w.spec, &q, &a)),
            Ok(a) if !hit && !same(&a, &clean) => return ctx.fail("the answer changed although nothing failed", about(&w.spec, &q, &a)),
            _ => {}
        }
        if hit {
            ctx.count("faults_injected");
            ctx.eval(Some((&text, n)));
        }
    }
}

pub fn c08(ctx: &mut Ctx, rng: &mut Rng) {
    cascade(ctx, rng, false)
}
pub fn c09(ctx: &mut Ctx, rng: &mut Rng) {
    cascade(ctx, rng, true)
}

pub fn c13(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts { grand: 10, ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    let most = if rng.chance(50) { 2 } else { 30 };
    let intents = siblings(&w.spec, rng, most);
    // queries around few texts: other letter case, filters, numbers of alternatives, intents
    let mut texts: Vec<String> = vec![];
    for _ in 0..4 {
        let mut t = any_text(&w, rng, 15);
        if w.spec.intents.len() > 6 && rng.chance(70) {
            // values of the slots of one of these intents
            let slots = &w.spec.intents[*rng.pick(&intents)].slots;
            if !slots.is_empty() {
                let words: Vec<String> = (0..rng.range(1, 4))
                    .map(|_| {
                        let e = rng.pick(slots).1.clone();
                        w.spec.random_value(rng, &e).map_or("make".to_string(), |v| v.join(" "))
                    })
                    .collect();
                t = words.join(" ");
            }
        }
        texts.push(t.to_uppercase());
        texts.push(t.to_lowercase());
        texts.push(format!(" {}", t));
        texts.push(t);
    }
    if rng.chance(50) {
        texts.extend(w.spec.relatives(rng, &texts));
    }
    texts.retain(|t| fits(&w, t, 10));
    if texts.is_empty() {
        return;
    }
    let mut queries: Vec<(Query, Answer)> = vec![];
    for _ in 0..18 {
        let t = rng.pick(&texts).clone();
        let q = query_about(&w, rng, t, &intents);
        let e = match load(ctx, &w.spec, &w.dir) {
            Some(e) => e,
            None => return,
        };
        match ask(&e, &q) {
            Ok(a) => queries.push((q, a)),
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
        }
    }
    let flood = ctx.case % 20 == 3;
    let mut history: Vec<String> = vec![];
    for step in 0..60 {
        let (q, first) = rng.pick(&queries);
        let faulty = rng.chance(15);
        if faulty {
            vmon::fail_nth(None, rng.range(1, 6) as u64);
        }
        let f0 = vmon::faults();
        let a = ask(&w.engine, q);
        vmon::clear_faults();
        let hit = vmon::faults() > f0;
        let a = match a {
            Ok(a) => a,
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, q, &"")),
        };
        if hit {
            ctx.count("failed_queries_in_histories");
        }
        let expected_error = hit || first.is_error();
        if (hit && !a.is_error()) || (!hit && !same(&a, first)) {
            return ctx.fail(
                if expected_error { "an error is lost" } else { "the answer depends on the earlier queries" },
                json!({"world": brief(&w.spec), "query": short(&format!("{:?}", q)), "first": short(&format!("{:?}", first)), "now": short(&format!("{:?}", a)), "history": history}),
            );
        }
        history.push(short(&format!("{:?}{}", q, if hit { " (failed)" } else { "" })));
        ctx.eval(Some((&w.spec.intents[0].name, q, step > 0, hit)));
        if flood && step == 30 {
            // beyond the capacity of the caches
            for k in 0..1100 {
                let _ = ask(&w.engine, &Query::Parse { text: format!("zz{} {}", k, texts[0]), white: None, black: None, intents: 0, slots: 0 });
            }
            ctx.count("floods_beyond_the_caches");
        }
    }
    ctx.sample(|| json!({"history": history.iter().take(6).collect::<Vec<_>>()}));
}

pub fn c14(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts { grand: 1, ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    let mut queries: Vec<(Query, Answer)> = vec![];
    let mut texts: Vec<String> = (0..6).map(|_| any_text(&w, rng, 15)).collect();
    texts.push("boom make tea".to_string());
    texts.push(format!("boom {}", any_text(&w, rng, 0)));
    texts.retain(|t| fits(&w, t, 10));
    vmon::fail_text(Some("boom"));
    for _ in 0..30 {
        let t = rng.pick(&texts).clone();
        let mut q = random_query(&w, rng, t);
        if let Query::Parse { ref text, ref mut intents, .. } = q {
            if text.contains("boom") && *intents > 0 {
                // which of the intents of equal confidence is listed, and fails, is left open
                *intents = 40;
            }
        }
        match ask(&w.engine, &q) {
            Ok(a) => queries.push((q, a)),
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
        }
    }
    // fresh: the threads meet cold caches
    let fresh = match load(ctx, &w.spec, &w.dir) {
        Some(e) => e,
        None => return,
    };
    let engine = Arc::new(fresh);
    let ps: Arc<Vec<Box<dyn IntentParser>>> = Arc::new(parsers(&w.spec, &w.dir));
    let queries = Arc::new(queries);
    let threads = rng.range(2, 8);
    vmon::take_log();
    // recording calls, and delaying them, orders the threads: ThreadSanitizer sees more without
    vmon::record(rng.chance(if cfg!(verif_tsan) { 30 } else { 85 }));
    vmon::delays(if rng.chance(80) { rng.next() | 1 } else { 0 });
    let (tx, rx) = std::sync::mpsc::channel();
    let per_thread = 25;
    for t in 0..threads {
        let (engine, queries, tx, ps) = (engine.clone(), queries.clone(), tx.clone(), ps.clone());
        let mut rng = Rng(rng.next());
        std::thread::spawn(move || {
            let mut bad = None;
            for _ in 0..per_thread {
                let (q, first) = &queries[rng.below(queries.len())];
                // other parsers on shared resources run along
                if rng.chance(25) {
                    let p = &ps[rng.below(ps.len())];
                    let _ = guard(|| p.parse(text_of(q), None).is_ok());
                }
                match ask(&engine, q) {
                    Ok(a) if same(&a, first) => {}
                    Ok(a) => bad = Some((format!("thread {}: the answer differs from the one given alone", t), format!("{:?} alone {:?} now {:?}", q, first, a))),
                    Err(p) => bad = Some((format!("thread {}: panic: {}", t, p), format!("{:?}", q))),
                }
            }
            let _ = tx.send(bad);
        });
    }
    drop(tx);
    let mut done = 0;
    let mut bad = None;
    while done < threads {
        match rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok(b) => {
                done += 1;
                bad = bad.or(b);
            }
            Err(_) => {
                bad = Some(("deadlock: the threads do not answer".to_string(), String::new()));
                break;
            }
        }
    }
    vmon::delays(0);
    vmon::record(false);
    vmon::fail_text(None);
    let log = vmon::take_log();
    if let Some((m, d)) = bad {
        return ctx.fail(m, json!({"world": brief(&w.spec), "what": short(&d)}));
    }
    // what the schedule was
    let switches = log.windows(2).filter(|p| p[0].thread != p[1].thread).count();
    let order: Vec<(u64, &str)> = {
        let mut ids: BTreeMap<u64, u64> = BTreeMap::new();
        log.iter()
            .map(|e| {
                let n = ids.len() as u64;
                (*ids.entry(e.thread).or_insert(n), e.site)
            })
            .collect()
    };
    // a tagger serves one call at a time
    let mut inside: BTreeMap<u64, u64> = BTreeMap::new();
    for e in log.iter().filter(|e| e.site == "tag") {
        match e.phase {
            "enter" => {
                if inside.insert(e.instance, e.thread).is_some() {
                    return ctx.fail("two threads use one tagger at once", json!({"world": brief(&w.spec)}));
                }
            }
            _ => {
                inside.remove(&e.instance);
            }
        }
    }
    ctx.add("component_calls", log.iter().filter(|e| e.phase == "enter").count() as u64);
    ctx.add("switches_between_threads", switches as u64);
    ctx.add("queries", (threads * per_thread) as u64);
    ctx.add("injected_failures", log.iter().filter(|e| e.phase == "fault").count() as u64);
    ctx.eval(if switches > 0 { Some(order) } else { None });
    ctx.sample(|| json!({"threads": threads, "events": log.len(), "switches": switches}));
}

pub fn c22(ctx: &mut Ctx, rng: &mut Rng) {
    let mut w = match world(ctx, rng, &Opts { ambivalent: 35, ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    let ps = match more_parsers(ctx, rng, &mut w) {
        Some(ps) => ps,
        None => return,
    };
    let mut stats = BTreeMap::new();
    for _ in 0..25 {
        let text = any_text(&w, rng, 10);
        let intent = if rng.chance(7) { rng.pick(&["nope", "", "O"]).to_string() } else { rng.pick(&w.spec.intents).name.clone() };
        let n = how_many(rng, 3);
        let q = Query::Slots { text: text.clone(), intent: intent.clone(), n };
        if rng.chance(25) {
            vmon::script_tags(Some(random_tags(rng, &w.spec, 40, true)));
        }
        let mut expected: Result<Vec<(String, String, std::ops::Range<usize>)>, String> = Ok(vec![]);
        let mut answered = None;
        for (k, p) in ps.iter().enumerate() {
            match p.get_slots(&text, &intent) {
                Err(e) => {
                    expected = Err(e.to_string());
                    break;
                }
                Ok(s) if !s.is_empty() => {
                    expected = Ok(internal!(s));
                    answered = Some(k);
                    break;
                }
                _ => {}
            }
        }
        // by itself, each parser lists the slots of its parse restricted to the intent
        for (k, p) in ps.iter().enumerate() {
            let listed = p.get_slots(&text, &intent);
            let parsed = p.parse(&text, Some(&[&*intent]));
            let (listed, parsed) = match (listed, parsed) {
                (Ok(l), Ok(r)) => (l, r),
                _ => continue,
            };
            let detail = || about(&w.spec, &q, &format!("{:?} / {:?}", listed, parsed));
            if parsed.intent.intent_name.is_some() {
                if parsed.intent.intent_name.as_ref() != Some(&intent) || parsed.slots != listed {
                    vmon::script_tags(None);
                    return ctx.fail(format!("the slots listed by parser {} are not those of its parse restricted to the intent", k), detail());
                }
                ctx.count("parsers_compared_with_their_restricted_parse");
                if let Ok(r) = p.parse(&text, None) {
                    if r.intent.intent_name.is_some() && r.intent.intent_name.as_ref() != Some(&intent) && !listed.is_empty() {
                        ctx.count("listed_slots_of_an_intent_the_text_is_not_classified_as");
                    }
                }
            } else if w.spec.parsers[k] != Kind::Prob && !listed.is_empty() {
                vmon::script_tags(None);
                return ctx.fail(format!("parser {} lists slots of an intent that does not match", k), detail());
            }
        }
        let mut restricted = None;
        for (k, p) in ps.iter().enumerate() {
            match p.parse(&text, Some(&[&*intent])) {
                Err(_) => break,
                Ok(r) if r.intent.intent_name.is_some() => {
                    restricted = Some(k);
                    break;
                }
                _ => {}
            }
        }
        let a = ask(&w.engine, &q);
        let p = ask(&w.engine, &Query::Parse { text: text.clone(), white: Some(vec![intent.clone()]), black: None, intents: 0, slots: n });
        vmon::script_tags(None);
        let a = match a {
            Ok(a) => a,
            Err(p) => return ctx.fail(format!("panic: {}", p), about(&w.spec, &q, &"")),
        };
        match (&expected, &a) {
            (Err(_), Answer::Error(_)) => {
                ctx.count("errors");
                ctx.eval(Some(("error", &intent, &text)));
            }
            (Err(e), _) => return ctx.fail(format!("a parser that is asked fails ({}), the engine does not", e), about(&w.spec, &q, &a)),
            (Ok(_), Answer::Error(e)) => return ctx.fail(format!("listing the slots fails: {}", e), about(&w.spec, &q, &a)),
            (Ok(found), Answer::Slots(got)) => {
                let i = match w.spec.intents.iter().find(|i| i.name == intent) {
                    Some(i) => i,
                    None => return ctx.fail("an unknown intent is accepted", about(&w.spec, &q, &a)),
                };
                if let Err(m) = resolved(&w, &text, found, got, n, &mut stats) {
                    return ctx.fail(m, about(&w.spec, &q, &a));
                }
                for s in got {
                    if !i.slots.contains(&(s.slot_name.clone(), s.entity.clone())) {
                        return ctx.fail(format!("the slot {:?} of entity {:?} is not declared for the intent", s.slot_name, s.entity), about(&w.spec, &q, &a));
                    }
                }
                if answered.is_some() && answered == restricted {
                    ctx.count("compared_with_the_restricted_parse");
                    match p {
                        Ok(Answer::Parse(r)) if r.slots == *got && r.intent.intent_name.as_ref() == Some(&intent) => {}
                        p => return ctx.fail(format!("the parse restricted to the intent answers {:?}", p), about(&w.spec, &q, &a)),
                    }
                }
                ctx.eval(if got.is_empty() { None } else { Some((&text, &intent)) });
                if got.len() > 1 {
                    ctx.sample(|| json!({"text": text, "intent": intent, "slots": format!("{:?}", got)}));
                }
            }
            _ => unreachable!(),
        }
    }
    for (k, v) in stats {
        ctx.add(k, v);
    }
}

pub fn c23(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts { all_value_kinds: rng.clone().chance(40), ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    for _ in 0..40 {
        let i = rng.pick(&w.spec.intents).clone();
        let known = !i.slots.is_empty() && rng.chance(90);
        let (intent, slot, entity) = if known {
            let (s, e) = rng.pick(&i.slots).clone();
            (i.name.clone(), s, Some(e))
        } else if rng.chance(50) {
            ("nope".to_string(), rng.pick(SLOT_NAMES).to_string(), None)
        } else {
            let s = rng.pick(SLOT_NAMES).to_string();
            let e = i.slots.iter().find(|x| x.0 == s).map(|x| x.1.clone());
            (i.name.clone(), s, e)
        };
        let text = match &entity {
            Some(e) => w.spec.slot_text(rng, e),
            None => any_text(&w, rng, 20),
        };
        let n = how_many(rng, 4);
        let q = Query::Extract { text: text.clone(), intent, slot: slot.clone(), n };
        let a = match ask_or_fail(ctx, &w, &q) {
            Some(a) => a,
            None => return,
        };
        let entity = match (&entity, &a) {
            (None, Answer::Error(_)) => {
                ctx.count("undeclared_refused");
                ctx.eval(Some(format!("{:?}", q)));
                continue;
            }
            (None, _) => return ctx.fail("an unknown intent or undeclared slot is accepted", about(&w.spec, &q, &a)),
            (Some(_), Answer::Error(e)) => return ctx.fail(format!("extracting fails: {}", e), about(&w.spec, &q, &a)),
            (Some(e), _) => e.clone(),
        };
        let got = match &a {
            Answer::Extract(g) => g,
            _ => unreachable!(),
        };
        // what the entity recognises in the text
        let found: Vec<(std::ops::Range<usize>, SlotValue, Vec<SlotValue>)> = if is_builtin(&entity) {
            w.refm.builtin(&text, Some(&[entity.clone()]), n).into_iter().map(|e| (e.range, e.entity, e.alternatives)).collect()
        } else {
            w.refm
                .custom(&text, Some(&[entity.clone()]), n)
                .into_iter()
                .map(|e| (e.range, SlotValue::Custom(e.resolved_value.into()), e.alternative_resolved_values.into_iter().map(|v| SlotValue::Custom(v.into())).collect()))
                .collect()
        };
        let extensible = w.spec.entities.iter().any(|e| e.name == entity && e.extensible);
        let ok = match got {
            None => found.is_empty() && !extensible,
            Some(s) => {
                s.slot_name == slot
                    && s.entity == entity
                    && raw_ok(&text, std::slice::from_ref(s)).is_ok()
                    && s.alternatives.len() <= n
                    && if found.is_empty() {
                        extensible && s.range == (0..text.chars().count()) && s.value == SlotValue::Custom(text.clone().into()) && s.alternatives.is_empty()
                    } else {
                        found.contains(&(s.range.clone(), s.value.clone(), s.alternatives.clone()))
                    }
            }
        };
        if !ok {
            return ctx.fail(format!("the extracted slot is {:?}; recognised: {:?}, extensible: {}", got, found, extensible), about(&w.spec, &q, &a));
        }
        ctx.count(match (got.is_some(), found.is_empty()) {
            (true, false) => "recognised",
            (true, true) => "whole_text",
            _ => "nothing",
        });
        ctx.eval(if got.is_some() { Some((&text, &entity)) } else { None });
        ctx.sample(|| json!({"text": short(&text), "slot": format!("{:?}", got)}));
    }
}

pub fn c24(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts { max_intents: 6, min_intents: 1, ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    for _ in 0..25 {
        let text = if rng.chance(4) { String::new() } else { any_text(&w, rng, 10) };
        let white = random_filter(rng, &w.spec, false);
        let black = random_filter(rng, &w.spec, false);
        let (n, m) = (if rng.chance(25) { rng.below(40) } else { rng.below(8) }, how_many(rng, 3));
        let set = allowed(&w.spec, &white, &black).unwrap();
        let q = Query::Parse { text: text.clone(), white: white.clone(), black: black.clone(), intents: n, slots: m };
        let a = match ask_or_fail(ctx, &w, &q) {
            Some(a) => a,
            None => return,
        };
        let plain = ask(&w.engine, &Query::Parse { text: text.clone(), white, black, intents: 0, slots: m });
        let list = ask(&w.engine, &Query::Intents { text: text.clone() });
        let (r, plain, list) = match (&a, plain, list) {
            (Answer::Parse(r), Ok(Answer::Parse(p)), Ok(Answer::Intents(l))) => (r, p, l),
            (_, p, l) => {
                // an intent the classifier knows nothing about, or a parser's error: both ways fail
                if let (Answer::Error(_), Ok(Answer::Parse(_))) = (&a, &p) {
                    return ctx.fail("asking for alternatives makes the parse fail", about(&w.spec, &q, &(&a, &p, &l)));
                }
                ctx.count("errors");
                continue;
            }
        };
        if !plain.alternatives.is_empty() {
            return ctx.fail("alternatives that were not asked for", about(&w.spec, &q, &plain));
        }
        if r.intent.intent_name != plain.intent.intent_name || !close(r.intent.confidence_score, plain.intent.confidence_score) || r.slots != plain.slots {
            return ctx.fail("asking for alternatives changes the main result", about(&w.spec, &q, &(&r, &plain)));
        }
        let candidates: Vec<&IntentClassifierResult> = list
            .iter()
            .filter(|x| x.intent_name != r.intent.intent_name)
            .filter(|x| x.intent_name.is_none() || set.as_ref().map_or(true, |s| s.contains(x.intent_name.as_ref().unwrap())))
            .collect();
        let want: Vec<f32> = candidates.iter().take(n).map(|x| x.confidence_score).collect();
        let got: Vec<f32> = r.alternatives.iter().map(|x| x.intent.confidence_score).collect();
        if want.len() != got.len() || !want.iter().zip(&got).all(|(a, b)| close(*a, *b)) {
            return ctx.fail(format!("the alternatives have confidences {:?}, the best remaining intents {:?}", got, want), about(&w.spec, &q, &a));
        }
        let mut seen: Vec<&Option<String>> = vec![&r.intent.intent_name];
        for x in &r.alternatives {
            if seen.contains(&&x.intent.intent_name) {
                return ctx.fail(format!("{:?} is given twice", x.intent.intent_name), about(&w.spec, &q, &a));
            }
            seen.push(&x.intent.intent_name);
            if !candidates.iter().any(|c| c.intent_name == x.intent.intent_name && close(c.confidence_score, x.intent.confidence_score)) {
                return ctx.fail(format!("{:?} does not have the confidence it is ranked with", x.intent.intent_name), about(&w.spec, &q, &a));
            }
            let slots = match &x.intent.intent_name {
                None => vec![],
                Some(i) => match ask(&w.engine, &Query::Slots { text: text.clone(), intent: i.clone(), n: m }) {
                    Ok(Answer::Slots(s)) => s,
                    o => return ctx.fail(format!("the slots of an alternative cannot be listed: {:?}", o), about(&w.spec, &q, &a)),
                },
            };
            if slots != x.slots {
                return ctx.fail(format!("the slots of the alternative {:?} are not those listed for it", x.intent.intent_name), about(&w.spec, &q, &(&a, &slots)));
            }
            if !slots.is_empty() {
                ctx.count("alternatives_with_slots");
            }
        }
        ctx.add("alternatives", r.alternatives.len() as u64);
        if list.first().map_or(false, |x| x.intent_name != r.intent.intent_name) {
            ctx.count("best_ranked_is_not_the_main_result");
        }
        ctx.eval(if r.alternatives.is_empty() { None } else { Some((&text, n, set)) });
        if r.alternatives.len() > 1 {
            ctx.sample(|| json!({"text": text, "n": n, "main": r.intent.intent_name, "alternatives": format!("{:?}", r.alternatives.iter().map(|x| &x.intent).collect::<Vec<_>>())}));
        }
    }
}
