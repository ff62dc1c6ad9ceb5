//! Synthetic engines: what they are (Spec), how they are written to disk as a model directory.
use crate::core::Rng;
use serde_json::{json, Map, Value};
use snips_nlu_utils::language::Language as UL;
use snips_nlu_utils::string::{hash_str_to_i32, normalize};
use snips_nlu_utils::token::{tokenize, tokenize_light};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::Path;

pub const CARRIERS: &[&str] = &[
    "make", "turn", "set", "play", "room", "song", "cup", "what", "weather", "open", "door", "call", "light", "hot",
    "café", "naïve", "straße", "año", "日本", "привет", "ωμέγα", "x1", "2nd", "s", "tea", "two", "been", "€",
];
/// values that patterns know and the entity parsers do not
pub const LITERALS: &[&str] = &["€", "$", "mug", "big jar", "££", "ñandú"];
pub const STOPS: &[&str] = &["the", "a", "to", "of", "is", "it", "please", "me", "some", "in"];
pub const VALUES: &[&str] = &[
    "red", "blue", "dark", "green", "tea", "coffee", "earl", "grey", "jazz", "rock", "paris", "new", "york", "été",
    "crème", "brûlée", "東京", "zoé", "smith", "two", "seven", "10", "light", "hot", "the", "who", "a", "ольга", "v2",
];
pub const ENTITY_NAMES: &[&str] = &["Color", "drink_type", "Room-2", "été", "snips thing", "X", "city/name", "Größe"];
pub const INTENT_NAMES: &[&str] = &["MakeTea", "makeCoffee", "intent 3", "été", "TurnOn", "a", "Weather.Get"];
pub const SLOT_NAMES: &[&str] = &["color", "Number", "number_2", "место", "x", "from city", "date-time", "O", "B-side"];

#[derive(Clone, Debug)]
pub struct Entity {
    pub name: String,
    pub extensible: bool,
    pub values: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub text: String,
    pub kind: String,
    pub value: Value,
    pub alternatives: Vec<Value>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Chunk {
    Text(String),
    Slot(String),
}

#[derive(Clone, Debug)]
pub struct Intent {
    pub name: String,
    pub slots: Vec<(String, String)>,
    pub utts: Vec<Vec<Chunk>>,
}

impl Intent {
    pub fn entity_of(&self, slot: &str) -> &str {
        &self.slots.iter().find(|s| s.0 == slot).unwrap().1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Lookup,
    Det,
    Prob,
}

/// one item of a pattern: the literal alternatives, each a list of words, and the slot it captures
#[derive(Clone, Debug)]
pub struct Item {
    pub slot: Option<String>,
    pub alts: Vec<Vec<String>>,
}

#[derive(Clone, Debug)]
pub struct Tfidf {
    pub vocab: Vec<String>,
    pub idf: Vec<f32>,
    pub stemming: bool,
    pub clusters: Option<String>,
    pub scope: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Cooc {
    pub pairs: Vec<(String, String)>,
    pub window: Option<usize>,
    pub filter_stop_words: bool,
    pub keep_order: bool,
    pub unknown: Option<String>,
    pub scope: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Classifier {
    pub intent_list: Vec<Option<String>>,
    pub tfidf: Option<Tfidf>,
    pub cooc: Option<Cooc>,
    pub intercept: Option<Vec<f32>>,
    pub coeffs: Option<Vec<Vec<f32>>>,
}

#[derive(Clone, Debug)]
pub struct Factory {
    pub name: String,
    pub offsets: Vec<i32>,
    pub args: Map<String, Value>,
}

#[derive(Clone, Debug)]
pub struct Filler {
    pub intent: String,
    pub scheme: u8,
    pub slots: Vec<(String, String)>,
    pub has_model: bool,
    pub labels: Vec<String>,
    pub state: Vec<(String, String, f64)>,
    pub trans: Vec<(String, String, f64)>,
    pub factories: Vec<Factory>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub lang: String,
    pub entities: Vec<Entity>,
    pub rules: Vec<Rule>,
    pub digits: bool,
    /// builtin gazetteers: kind, values
    pub bgaz: Vec<(String, Vec<(String, String)>)>,
    pub intents: Vec<Intent>,
    pub stop_words: Vec<String>,
    pub whitelist: BTreeMap<String, Vec<String>>,
    pub det_ignore: bool,
    pub lk_ignore: bool,
    pub det_value_patterns: bool,
    /// with value patterns: entity, values that only the patterns know
    pub literals: Vec<(String, Vec<String>)>,
    pub parsers: Vec<Kind>,
    pub classifier: Classifier,
    pub fillers: Vec<Filler>,
    pub stems: Option<Vec<(String, Vec<String>)>>,
    pub gazetteers: Vec<(String, Vec<String>)>,
    pub clusters: Vec<(String, Vec<(String, String)>)>,
    pub custom_usage: u8,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_intents: usize,
    pub min_intents: usize,
    pub max_entities: usize,
    /// percent of values that come from the carriers or other entities
    pub ambivalent: usize,
    pub kinds: Vec<Kind>,
    pub all_value_kinds: bool,
    pub langs: Vec<&'static str>,
    /// percent of worlds that ignore stop words
    pub stop_percent: usize,
    /// percent of worlds whose patterns hold the values of the entities
    pub value_patterns: usize,
    /// percent of worlds with more than nine of everything
    pub grand: usize,
    /// percent of worlds with some very long utterances
    pub lengthy: usize,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts {
            max_intents: 4,
            min_intents: 1,
            max_entities: 4,
            ambivalent: 25,
            kinds: vec![Kind::Lookup, Kind::Det, Kind::Prob],
            all_value_kinds: false,
            langs: vec!["en", "en", "fr", "de", "es", "ja", "pt_br", "pt_pt", "it", "ko"],
            stop_percent: 60,
            value_patterns: 25,
            grand: 5,
            lengthy: 0,
        }
    }
}

pub fn ulang(l: &str) -> UL {
    l.parse().unwrap()
}

pub fn placeholder(entity: &str) -> String {
    format!("%{}%", tokenize_light(entity, UL::EN).join("").to_uppercase())
}

pub fn is_builtin(entity: &str) -> bool {
    entity.starts_with("snips/")
}

fn pick_names(rng: &mut Rng, pool: &[&str], n: usize) -> Vec<String> {
    let mut v: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    // numbers, of which one is the beginning of another
    v.extend((pool.len()..n + 2).map(|k| format!("{}{}", pool[0], k - pool.len())));
    rng.shuffle(&mut v);
    v.truncate(n);
    v
}

fn num(v: f64) -> Value {
    json!({"kind": "Number", "value": v})
}

/// rows of the builtin table, all the kinds of values when asked for
fn rules(rng: &mut Rng, all: bool) -> Vec<Rule> {
    let mut out: Vec<Rule> = vec![];
    let mut add = |text: &str, kind: &str, value: Value, alternatives: Vec<Value>| {
        out.push(Rule { text: text.into(), kind: kind.into(), value, alternatives })
    };
    for (i, w) in ["zero", "one", "two", "three", "five", "seven"].iter().enumerate() {
        add(w, "snips/number", num(i as f64), vec![]);
    }
    add("twenty two", "snips/number", num(22.0), vec![num(20.0), num(2.0)]);
    add("a dozen", "snips/number", num(12.0), (0..9).map(|k| num(k as f64 + 0.5)).collect());
    add("- 3 . 5", "snips/number", num(-3.5), vec![]);
    let time = |v: &str, g: &str, p: &str| json!({"kind": "InstantTime", "value": v, "grain": g, "precision": p});
    add("tomorrow", "snips/datetime", time("2019-01-02", "Day", "Exact"), vec![time("2019-01-03", "Hour", "Approximate")]);
    add("at noon", "snips/datetime", time("12:00", "Hour", "Exact"), vec![]);
    add("at two", "snips/datetime", time("02:00", "Hour", "Approximate"), vec![time("14:00", "Minute", "Exact")]);
    add("two", "snips/datetime", time("02:00", "Hour", "Exact"), vec![]);
    add("first", "snips/ordinal", json!({"kind": "Ordinal", "value": 1}), vec![json!({"kind": "Ordinal", "value": -1})]);
    if all || rng.chance(30) {
        for (i, g) in ["Year", "Quarter", "Month", "Week", "Day", "Hour", "Minute", "Second"].iter().enumerate() {
            let p = if i % 2 == 0 { "Exact" } else { "Approximate" };
            add(&format!("date {}", g.to_lowercase()), "snips/date", time(&format!("d{} é", i), g, p), vec![]);
        }
        add("between", "snips/timePeriod", json!({"kind": "TimeInterval", "from": "a", "to": null}), vec![json!({"kind": "TimeInterval", "from": null, "to": "b é"})]);
        add("week end", "snips/datePeriod", json!({"kind": "TimeInterval", "from": "a", "to": "b"}), vec![json!({"kind": "TimeInterval", "from": null, "to": null})]);
        add("half", "snips/percentage", json!({"kind": "Percentage", "value": 50.5}), vec![json!({"kind": "Percentage", "value": -0.25})]);
        add("ten bucks", "snips/amountOfMoney", json!({"kind": "AmountOfMoney", "value": 10.25, "precision": "Exact", "unit": "$"}), vec![json!({"kind": "AmountOfMoney", "value": -1.5, "precision": "Approximate", "unit": null})]);
        add("hot degrees", "snips/temperature", json!({"kind": "Temperature", "value": 40.5, "unit": "celsius"}), vec![json!({"kind": "Temperature", "value": -4.0, "unit": null})]);
        add("a while", "snips/duration", json!({"kind": "Duration", "years": 1, "quarters": 2, "months": 3, "weeks": 4, "days": 5, "hours": 6, "minutes": 7, "seconds": -8, "precision": "Approximate"}), vec![json!({"kind": "Duration", "years": 0, "quarters": 0, "months": 0, "weeks": 0, "days": 0, "hours": 0, "minutes": 0, "seconds": 9, "precision": "Exact"})]);
        add("noon", "snips/time", time("12", "Minute", "Exact"), vec![]);
    }
    out
}

/// An utterance of another intent whose words are kept, but for one of them: it becomes a value of
/// the entity of one of these slots, and the slot takes its place.
fn borrowed(rng: &mut Rng, intents: &[Intent], slots: &[(String, String)], entities: &mut Vec<Entity>) -> Option<Vec<Chunk>> {
    let custom: Vec<&(String, String)> = slots.iter().filter(|s| entities.iter().any(|e| e.name == s.1)).collect();
    if custom.is_empty() {
        return None;
    }
    let (slot, name) = rng.pick(&custom);
    let other = &intents[rng.below(intents.len())];
    let words: Vec<String> = other.utts[rng.below(other.utts.len())]
        .iter()
        .filter_map(|c| match c {
            Chunk::Text(t) => Some(t.split(' ').map(str::to_string).collect::<Vec<_>>()),
            _ => None,
        })
        .flatten()
        .collect();
    let taken: Vec<usize> = (0..words.len()).filter(|k| !STOPS.contains(&&*words[*k])).collect();
    if taken.is_empty() {
        return None;
    }
    let k = *rng.pick(&taken);
    let e = entities.iter_mut().find(|e| e.name == *name).unwrap();
    if !e.values.iter().any(|v| v.0 == words[k]) {
        e.values.push((words[k].clone(), words[k].clone()));
    }
    let mut u = vec![];
    if k > 0 {
        u.push(Chunk::Text(words[..k].join(" ")));
    }
    u.push(Chunk::Slot(slot.clone()));
    if k + 1 < words.len() {
        u.push(Chunk::Text(words[k + 1..].join(" ")));
    }
    Some(u)
}

impl Spec {
    pub fn generate(rng: &mut Rng, o: &Opts) -> Spec {
        let lang = rng.pick(&o.langs).to_string();
        let ul = ulang(&lang);
        // a race detector makes everything twenty times slower
        let grand = rng.chance(o.grand) && (!cfg!(verif_tsan) || rng.chance(25));
        // more than a machine word has bits
        let many_entities = grand && rng.chance(5) && !cfg!(verif_tsan);
        let many_intents = grand && rng.chance(8) && !cfg!(verif_tsan);
        let n_entities = if many_entities { rng.range(65, 140) } else if grand { rng.range(8, 24) } else { rng.range(1, o.max_entities) };
        let names = pick_names(rng, ENTITY_NAMES, n_entities);
        let mut pool: Vec<String> = VALUES.iter().map(|s| s.to_string()).collect();
        rng.shuffle(&mut pool);
        let mut entities = vec![];
        for name in names {
            let mut values: Vec<(String, String)> = vec![];
            let most = if grand && !many_entities && rng.chance(20) { *rng.pick(&[60, 60, if cfg!(verif_tsan) { 60 } else { 300 }]) } else { 5 };
            // words which many values share
            let shared = rng.chance(5);
            for _ in 0..rng.range(1, most) {
                let words: Vec<String> = (0..[1, 1, 1, 2, 3][rng.below(5)])
                    .map(|_| {
                        if rng.chance(o.ambivalent) {
                            let p: &[&str] = if rng.chance(50) { CARRIERS } else { VALUES };
                            rng.pick(p).to_string()
                        } else {
                            rng.pick(&pool).clone()
                        }
                    })
                    .collect();
                let raw = words.join(" ");
                let resolved = match rng.below(4) {
                    0 => raw.clone(),
                    1 => raw.to_uppercase(),
                    2 => format!("Ref-{}", values.len()),
                    _ => values.last().map(|v| v.1.clone()).unwrap_or_else(|| raw.clone()),
                };
                values.push((raw, resolved));
                while rng.chance(if shared { 85 } else { 25 }) && values.len() < 14 {
                    // the same words with another reference value: an alternative
                    let raw = values.last().unwrap().0.clone();
                    values.push((raw, format!("Alt {}", values.len())));
                }
                if rng.chance(15) {
                    // a longer value that contains this one
                    let raw = values.last().unwrap().0.clone();
                    let other = rng.pick(&pool).clone();
                    let long = if rng.chance(50) { format!("{} {}", raw, other) } else { format!("{} {}", other, raw) };
                    values.push((long.clone(), long));
                }
            }
            entities.push(Entity { name, extensible: rng.chance(50), values });
        }
        let rules = rules(rng, o.all_value_kinds);
        let mut bgaz = vec![];
        for kind in &["snips/musicArtist", "snips/city", "snips/country", "snips/region", "snips/musicAlbum", "snips/musicTrack"] {
            if rng.chance(if o.all_value_kinds { 100 } else { 25 }) {
                let values = (0..rng.range(1, 4))
                    .map(|i| {
                        let w = rng.pick(VALUES).to_string();
                        let raw = if rng.chance(40) { format!("{} {}", w, rng.pick(VALUES)) } else { w };
                        (raw, format!("{} é{}", kind, i))
                    })
                    .collect();
                bgaz.push((kind.to_string(), values));
            }
        }
        // intents
        let mut kinds: Vec<String> = rules.iter().map(|r| r.kind.clone()).chain(bgaz.iter().map(|b: &(String, Vec<_>)| b.0.clone())).collect();
        kinds.sort();
        kinds.dedup();
        let stop_on = rng.chance(o.stop_percent);
        let stop_words: Vec<String> = if rng.chance(85) { rng.subset(&STOPS.iter().map(|s| s.to_string()).collect::<Vec<_>>(), 70) } else { vec![] };
        let n_intents = if many_intents { rng.range(65, 140) } else if grand { rng.range(8, 24) } else { rng.range(o.min_intents, o.max_intents) };
        // with that many of them, each is small
        let vast = many_entities || many_intents;
        let grand = grand && !vast;
        let lengthy = !vast && rng.chance(o.lengthy);
        let mut intents: Vec<Intent> = vec![];
        for name in pick_names(rng, INTENT_NAMES, n_intents) {
            let n_slots = if grand && rng.chance(40) { rng.range(5, 24) } else if lengthy { rng.range(1, 4) } else { [0, 1, 1, 2, 2, 3, 4][rng.below(7)] };
            let mut slots: Vec<(String, String)> = pick_names(rng, SLOT_NAMES, n_slots)
                .into_iter()
                .map(|s| {
                    let e = if rng.chance(60) {
                        rng.pick(&entities).name.clone()
                    } else if rng.chance(40) {
                        "snips/number".to_string()
                    } else {
                        rng.pick(&kinds).clone()
                    };
                    (s, e)
                })
                .collect();
            if !intents.is_empty() && rng.chance(if grand { 30 } else { 6 }) {
                // nearly the slots of another intent
                let mut same = rng.pick(&intents).slots.clone();
                if same.len() > 1 && rng.chance(50) {
                    let k = rng.below(same.len());
                    same.remove(k);
                } else if let Some(s) = slots.pop() {
                    if !same.iter().any(|x| x.0 == s.0) {
                        let at = rng.below(same.len() + 1);
                        same.insert(at, s);
                    }
                }
                slots = same;
            }
            let mut utts: Vec<Vec<Chunk>> = vec![];
            for _ in 0..rng.range(1, if grand { 14 } else if vast { 2 } else { 4 }) {
                if !utts.is_empty() && rng.chance(15) {
                    // a variation of an earlier one, to make intents compete
                    let mut u = utts[rng.below(utts.len())].clone();
                    u.push(Chunk::Text(rng.pick(CARRIERS).to_string()));
                    utts.push(u);
                    continue;
                }
                if !intents.is_empty() && rng.chance(12) {
                    // the same words as in another intent
                    let other = &intents[rng.below(intents.len())];
                    let u: Vec<Chunk> = other.utts[rng.below(other.utts.len())].iter().filter(|c| matches!(c, Chunk::Text(_))).cloned().collect();
                    if !u.is_empty() {
                        utts.push(u);
                        continue;
                    }
                }
                // the same words as in another intent, one of them here in a slot
                if !intents.is_empty() && rng.chance(12) {
                    if let Some(u) = borrowed(rng, &intents, &slots, &mut entities) {
                        utts.push(u);
                        continue;
                    }
                }
                let mut u: Vec<Chunk> = vec![];
                let most = if grand && rng.chance(8) { 40 } else if grand && rng.chance(30) { 12 } else { 5 };
                let n = if lengthy && rng.chance(25) { rng.range(16, 60) } else { rng.range(1, most) };
                let dense = if (grand || n > 12) && rng.chance(if n > 12 { 60 } else { 30 }) { 85 } else { 45 };
                for _ in 0..n {
                    if !slots.is_empty() && rng.chance(dense) {
                        u.push(Chunk::Slot(rng.pick(&slots).0.clone()));
                    } else {
                        let words: Vec<&str> = (0..rng.range(1, 3))
                            .map(|_| if rng.chance(30) { *rng.pick(STOPS) } else { *rng.pick(CARRIERS) })
                            .collect();
                        u.push(Chunk::Text(words.join(" ")));
                    }
                }
                // something that is never ignored
                if !u.iter().any(|c| match c {
                    Chunk::Slot(_) => true,
                    Chunk::Text(t) => t.split(' ').any(|w| !STOPS.contains(&w)),
                }) {
                    u.push(Chunk::Text(rng.pick(CARRIERS).to_string()));
                }
                utts.push(u);
            }
            intents.push(Intent { name, slots, utts });
        }
        let mut whitelist: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for i in &intents {
            if rng.chance(50) {
                // as the training does: the stop words that belong to values of the intent's slots
                let mut words: BTreeSet<String> = BTreeSet::new();
                for (_, e) in &i.slots {
                    if let Some(e) = entities.iter().find(|x| x.name == *e) {
                        for (raw, _) in &e.values {
                            words.extend(raw.split(' ').filter(|w| stop_words.iter().any(|s| s == w)).map(str::to_string));
                        }
                    }
                }
                if rng.chance(50) && !stop_words.is_empty() {
                    words.insert(rng.pick(&stop_words).clone());
                }
                whitelist.insert(i.name.clone(), words.into_iter().collect());
            }
        }
        // resources
        let stems = if rng.chance(60) {
            Some(vec![
                ("mak".to_string(), vec!["make".to_string(), "making".into(), "makes".into()]),
                ("be".to_string(), vec!["is".to_string(), "been".into(), "was".into()]),
                ("ete".to_string(), vec!["etes".to_string()]),
                ("turn".to_string(), vec!["turning".to_string(), "turned".into()]),
                ("light".to_string(), vec!["lights".to_string()]),
            ])
        } else {
            None
        };
        let gazetteers = if rng.chance(70) {
            vec![("top words".to_string(), CARRIERS.iter().chain(VALUES).map(|w| normalize(w)).filter(|w| hash_str_to_i32(w) % 2 == 0).collect()),
                 ("stemmed".to_string(), vec!["mak".to_string(), "be".into(), "cup".into()])]
        } else {
            vec![]
        };
        let clusters = if rng.chance(70) {
            let mut long: Vec<(String, String)> = vec![];
            for n in 3..8 {
                let words: Vec<String> = (0..n).map(|_| if rng.chance(25) { rng.pick(STOPS).to_lowercase() } else { rng.pick(CARRIERS).to_lowercase() }).collect();
                long.push((words.join(" "), format!("long{}", n % 3)));
            }
            vec![
                ("expressions".to_string(), {
                    long.extend(CARRIERS.iter().take(4).map(|w| (w.to_lowercase(), "long1".to_string())));
                    long
                }),
                ("numbered".to_string(), CARRIERS.iter().enumerate().map(|(i, w)| (w.to_lowercase(), format!("{}", i % 7 * 100))).collect()),
                ("named".to_string(), CARRIERS.iter().chain(&["make tea", "turn set"]).enumerate().map(|(i, w)| (w.to_lowercase(), format!("{:05b}", i % 5))).collect()),
            ]
        } else {
            vec![]
        };
        let mut parsers: Vec<Kind> = o.kinds.clone();
        rng.shuffle(&mut parsers);
        let keep = rng.range(1, parsers.len());
        parsers.truncate(keep);
        let mut spec = Spec {
            lang,
            entities,
            rules,
            digits: rng.chance(80),
            bgaz,
            intents,
            stop_words,
            whitelist,
            det_ignore: stop_on && rng.chance(85),
            lk_ignore: stop_on && rng.chance(85),
            det_value_patterns: rng.chance(o.value_patterns) && !vast,
            literals: vec![],
            parsers,
            classifier: Classifier { intent_list: vec![], tfidf: None, cooc: None, intercept: None, coeffs: None },
            fillers: vec![],
            stems,
            gazetteers,
            clusters,
            custom_usage: 1,
        };
        // large patterns take long to compile
        spec.det_value_patterns &= !vast && spec.entities.iter().all(|e| e.values.len() < 30);
        if spec.det_value_patterns {
            spec.literals = spec.entities.iter().map(|e| (e.name.clone(), rng.subset(&LITERALS.iter().map(|s| s.to_string()).collect::<Vec<_>>(), 40))).collect();
        }
        spec.custom_usage = if spec.stems.is_some() { rng.below(3) as u8 } else { 1 };
        // stems are among the values when the custom parser uses them
        if spec.custom_usage != 1 {
            let stems = spec.stems.clone().unwrap();
            for e in spec.entities.iter_mut() {
                let stemmed: Vec<(String, String)> = e.values.iter().map(|(raw, r)| (stem_words(&stems, raw, ul), r.clone())).collect();
                for v in stemmed {
                    if !e.values.contains(&v) {
                        e.values.push(v);
                    }
                }
            }
        }
        spec.gen_classifier(rng);
        spec.gen_fillers(rng);
        spec
    }

    pub fn kinds(&self) -> Vec<String> {
        let mut kinds: Vec<String> = self.rules.iter().map(|r| r.kind.clone()).chain(self.bgaz.iter().map(|b| b.0.clone())).collect();
        kinds.sort();
        kinds.dedup();
        kinds
    }

    pub fn gen_classifier(&mut self, rng: &mut Rng) {
        let mut intent_list: Vec<Option<String>> = self.intents.iter().map(|i| Some(i.name.clone())).collect();
        rng.shuffle(&mut intent_list);
        if rng.chance(85) {
            intent_list.push(None);
        }
        if rng.chance(7) {
            intent_list.truncate(1);
        }
        self.classifier = Classifier { intent_list, tfidf: None, cooc: None, intercept: None, coeffs: None };
        if rng.chance(8) {
            return; // untrained
        }
        let kinds = self.kinds();
        let ul = ulang(&self.lang);
        let stemming = self.stems.is_some() && rng.chance(60);
        let cluster = if self.clusters.is_empty() || rng.chance(50) { None } else { Some(rng.pick(&self.clusters).0.clone()) };
        let scope = rng.subset(&kinds, 60);
        let mut vocab: Vec<String> = vec![];
        let words: Vec<&str> = CARRIERS.iter().chain(STOPS).chain(VALUES).cloned().collect();
        for w in words {
            if rng.chance(60) {
                let n = normalize(w);
                vocab.push(if stemming { stem_words(self.stems.as_ref().unwrap(), &n, ul) } else { n });
            }
        }
        for e in &self.entities {
            vocab.push(format!("entityfeature{}", tokenize_light(&e.name.to_lowercase(), ul).join("")));
        }
        for k in &kinds {
            vocab.push(format!("builtinentityfeature{}", tokenize_light(&k.to_lowercase(), ul).join("")));
        }
        for (_, c) in &self.clusters {
            vocab.extend(c.iter().map(|x| x.1.clone()));
        }
        let mut vocab = rng.subset(&vocab, 75);
        vocab.sort();
        vocab.dedup();
        rng.shuffle(&mut vocab);
        if vocab.is_empty() {
            vocab.push("make".to_string());
        }
        if self.entities.len() >= 8 && rng.chance(30) {
            // words that hardly occur, the others among them
            vocab.extend((0..rng.range(100, 1500)).map(|k| format!("rare{}", k)));
            rng.shuffle(&mut vocab);
        }
        let idf: Vec<f32> = vocab.iter().map(|_| 0.5 + 4.0 * rng.f() as f32).collect();
        let n_tfidf = vocab.len();
        self.classifier.tfidf = Some(Tfidf { vocab: vocab.clone(), idf, stemming, clusters: cluster, scope });
        let mut n = n_tfidf;
        if rng.chance(70) {
            let mut tokens: Vec<String> = CARRIERS.iter().chain(STOPS).map(|s| s.to_string()).collect();
            let marker = |e: &str| tokenize_light(e, ul).join("").to_uppercase();
            tokens.extend(self.entities.iter().map(|e| marker(&e.name)));
            tokens.extend(kinds.iter().map(|k| marker(k)));
            let keep_order = rng.chance(50);
            let mut pairs: BTreeSet<(String, String)> = BTreeSet::new();
            // pairs that occur in the utterances, and random ones
            for i in &self.intents {
                for u in &i.utts {
                    let ts: Vec<String> = u
                        .iter()
                        .flat_map(|c| match c {
                            Chunk::Text(t) => t.split(' ').map(str::to_string).collect::<Vec<_>>(),
                            Chunk::Slot(s) => vec![marker(i.entity_of(s))],
                        })
                        .collect();
                    for a in 0..ts.len() {
                        for b in a + 1..ts.len() {
                            if rng.chance(50) {
                                pairs.insert((ts[a].clone(), ts[b].clone()));
                            }
                        }
                    }
                }
            }
            for _ in 0..10 {
                pairs.insert((rng.pick(&tokens).clone(), rng.pick(&tokens).clone()));
            }
            let mut pairs: Vec<(String, String)> = pairs
                .into_iter()
                .map(|(a, b)| if keep_order || a < b { (a, b) } else { (b, a) })
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();
            rng.shuffle(&mut pairs);
            n += pairs.len();
            let window = if rng.chance(50) { Some(rng.below(5)) } else { None };
            self.classifier.cooc = Some(Cooc {
                pairs,
                window,
                filter_stop_words: rng.chance(60),
                keep_order,
                unknown: if rng.chance(50) { Some(rng.pick(&["THE_UNKNOWNWORD", "door", "日本"]).to_string()) } else { None },
                scope: rng.subset(&kinds, 60),
            });
        }
        // one row of coefficients per class, or a single one when there are two
        let classes = self.classifier.intent_list.len();
        let rows = if classes == 2 && rng.chance(80) { 1 } else { classes };
        let scale = [1.0, 1.0, 3.0, 30.0][rng.below(4)];
        let mut coeffs = vec![];
        for r in 0..rows {
            let name = self.classifier.intent_list[if rows == 1 { classes - 1 } else { r }].clone();
            let intent_words: Vec<String> = self
                .intents
                .iter()
                .filter(|i| Some(&i.name) == name.as_ref())
                .flat_map(|i| i.utts.iter().flatten())
                .flat_map(|c| match c {
                    Chunk::Text(t) => t.split(' ').map(normalize).collect(),
                    Chunk::Slot(_) => vec![],
                })
                .collect();
            coeffs.push(
                (0..n)
                    .map(|i| {
                        let bias = if i < n_tfidf && intent_words.contains(&vocab[i]) { 2.0 } else { 0.0 };
                        ((rng.f() * 2.0 - 1.0 + bias) * scale) as f32
                    })
                    .collect::<Vec<f32>>(),
            );
        }
        self.classifier.intercept = Some((0..rows).map(|_| ((rng.f() * 2.0 - 1.0) * scale) as f32).collect());
        self.classifier.coeffs = Some(coeffs);
    }

    pub fn gen_factories(&self, rng: &mut Rng, all: bool) -> Vec<Factory> {
        let mut out = vec![];
        let p = if all { 75 } else { 30 };
        let offsets = |rng: &mut Rng| {
            let mut v: Vec<i32> = (0..rng.range(1, 4)).map(|_| rng.below(7) as i32 - 3).collect();
            v.sort();
            v.dedup();
            rng.shuffle(&mut v);
            v
        };
        let mut add = |rng: &mut Rng, name: &str, args: Value| {
            let offsets = offsets(rng);
            out.push(Factory { name: name.to_string(), offsets, args: args.as_object().unwrap().clone() })
        };
        for name in &["is_digit", "length", "is_first", "is_last"] {
            if rng.chance(p) {
                add(rng, name, json!({}));
            }
        }
        for _ in 0..3 {
            if rng.chance(p) {
                let stem = self.stems.is_some() && rng.chance(50);
                let gaz = if !self.gazetteers.is_empty() && rng.chance(60) { Some(rng.pick(&self.gazetteers).0.clone()) } else { None };
                let n = if rng.chance(10) { rng.range(4, 9) } else { rng.range(1, 3) };
                add(rng, "ngram", json!({"n": n, "use_stemming": stem, "common_words_gazetteer_name": gaz}));
            }
        }
        for name in &[("shape_ngram", "n"), ("prefix", "prefix_size"), ("suffix", "suffix_size")] {
            for _ in 0..2 {
                if rng.chance(p) {
                    let n = match (name.0, rng.chance(15)) {
                        ("shape_ngram", false) => rng.range(1, 3),
                        ("shape_ngram", true) => rng.range(4, 9),
                        (_, false) => rng.range(1, 5),
                        (_, true) => rng.range(6, 20),
                    };
                    let mut args = Map::new();
                    args.insert(name.1.to_string(), json!(n));
                    add(rng, name.0, Value::Object(args));
                }
            }
        }
        if rng.chance(p) {
            let names: Vec<String> = self.entities.iter().map(|e| e.name.clone()).collect();
            let names = rng.subset(&names, 70);
            let stem = self.stems.is_some() && rng.chance(50);
            let scheme = rng.below(3);
            add(rng, "entity_match", json!({"entities": names, "tagging_scheme_code": scheme, "use_stemming": stem}));
        }
        if rng.chance(p) {
            let kinds = rng.subset(&self.kinds(), 60);
            let scheme = rng.below(3);
            add(rng, "builtin_entity_match", json!({"entity_labels": kinds, "tagging_scheme_code": scheme}));
        }
        if !self.clusters.is_empty() && rng.chance(p) {
            let c = rng.pick(&self.clusters).0.clone();
            add(rng, "word_cluster", json!({"cluster_name": c}));
        }
        rng.shuffle(&mut out);
        out
    }

    pub fn gen_fillers(&mut self, rng: &mut Rng) {
        let mut fillers = vec![];
        for i in &self.intents {
            let scheme = rng.below(3) as u8;
            let has_model = !i.slots.is_empty() || rng.chance(20);
            let mut labels = vec!["O".to_string()];
            for (s, _) in &i.slots {
                let prefixes: &[&str] = match scheme {
                    0 => &["I-"],
                    1 => &["B-", "I-"],
                    _ => &["B-", "I-", "L-", "U-"],
                };
                labels.extend(prefixes.iter().map(|p| format!("{}{}", p, s)));
            }
            if rng.chance(10) {
                labels.remove(0);
                if labels.is_empty() {
                    labels.push("O".to_string());
                }
            }
            rng.shuffle(&mut labels);
            let mut factories = self.gen_factories(rng, false);
            factories.push(Factory {
                name: "ngram".into(),
                offsets: vec![0, -1],
                args: json!({"n": 1, "use_stemming": false, "common_words_gazetteer_name": null}).as_object().unwrap().clone(),
            });
            let mut state = vec![];
            for w in CARRIERS.iter().chain(VALUES).chain(STOPS) {
                for a in &["ngram_1", "ngram_1[-1]"] {
                    if rng.chance(40) {
                        let l = rng.pick(&labels).clone();
                        state.push((format!("{}:{}", a, normalize(w)), l, rng.f() * 4.0 - 1.0));
                    }
                }
            }
            let mut trans = vec![];
            for a in &labels {
                for b in &labels {
                    if rng.chance(60) {
                        trans.push((a.clone(), b.clone(), rng.f() * 2.0 - 1.0));
                    }
                }
            }
            fillers.push(Filler { intent: i.name.clone(), scheme, slots: i.slots.clone(), has_model, labels, state, trans, factories });
        }
        self.fillers = fillers;
    }

    /// stop words that count as such for this intent
    pub fn stops_of(&self, intent: &str, ignore: bool) -> BTreeSet<String> {
        if !ignore {
            return BTreeSet::new();
        }
        let kept = self.whitelist.get(intent).cloned().unwrap_or_default();
        self.stop_words.iter().filter(|w| !kept.contains(w)).cloned().collect()
    }

    pub fn group_name(&self, slot: &str) -> String {
        let mut names: Vec<&String> = self.intents.iter().flat_map(|i| i.slots.iter().map(|s| &s.0)).collect();
        names.sort();
        names.dedup();
        format!("group{}", names.iter().position(|n| *n == slot).unwrap())
    }

    /// the patterns of an intent, as the training builds them
    pub fn patterns(&self, i: &Intent) -> Vec<Vec<Item>> {
        let ul = ulang(&self.lang);
        let stops = self.stops_of(&i.name, self.det_ignore);
        i.utts
            .iter()
            .map(|u| {
                let mut items = vec![];
                for c in u {
                    match c {
                        Chunk::Text(t) => {
                            for w in tokenize_light(t, ul) {
                                if !stops.contains(&normalize(&w)) {
                                    items.push(Item { slot: None, alts: vec![vec![w.to_lowercase()]] });
                                }
                            }
                        }
                        Chunk::Slot(s) => {
                            let e = i.entity_of(s);
                            let mut alts = vec![vec![placeholder(e)]];
                            if self.det_value_patterns {
                                for raw in self.literals.iter().filter(|l| l.0 == e).flat_map(|l| &l.1) {
                                    let words: Vec<String> = raw.split(' ').map(str::to_string).collect();
                                    alts.push(words);
                                }
                                if let Some(e) = self.entities.iter().find(|x| x.name == e) {
                                    for (raw, _) in &e.values {
                                        let words: Vec<String> = raw.split(' ').filter(|w| !stops.contains(&normalize(w))).map(str::to_string).collect();
                                        if !words.is_empty() {
                                            alts.push(words);
                                        }
                                    }
                                }
                            }
                            items.push(Item { slot: Some(s.clone()), alts });
                        }
                    }
                }
                items
            })
            .collect()
    }

    pub fn regex_of(&self, items: &[Item]) -> String {
        let mut used: HashMap<String, usize> = HashMap::new();
        let mut s = "^\\s*".to_string();
        for (n, it) in items.iter().enumerate() {
            if n > 0 {
                s.push_str("\\s*");
            }
            let alts: Vec<String> = it
                .alts
                .iter()
                .map(|ws| ws.iter().map(|w| regex::escape(w)).collect::<Vec<_>>().join("\\s*"))
                .collect();
            match &it.slot {
                None => s.push_str(&alts.join("|")),
                Some(slot) => {
                    let g = self.group_name(slot);
                    let k = used.entry(g.clone()).or_insert(0);
                    *k += 1;
                    let g = if *k == 1 { g } else { format!("{}_{}", g, k) };
                    s.push_str(&format!("(?P<{}>{})", g, alts.join("|")));
                }
            }
        }
        s.push_str("\\s*$");
        s
    }

    /// canonical form of a text for the lookup parser
    pub fn lookup_key(&self, text: &str, stops: &BTreeSet<String>) -> String {
        tokenize_light(text, ulang(&self.lang))
            .into_iter()
            .filter(|t| !stops.contains(&normalize(t)))
            .collect::<Vec<_>>()
            .join(" ")
            .to_lowercase()
    }

    /// key -> (intent index, slot names)
    pub fn lookup_table(&self) -> BTreeMap<String, (usize, Vec<String>)> {
        let mut table = BTreeMap::new();
        for (n, i) in self.intents.iter().enumerate() {
            let stops = self.stops_of(&i.name, self.lk_ignore);
            for u in &i.utts {
                let mut text = vec![];
                let mut slots = vec![];
                for c in u {
                    match c {
                        Chunk::Text(t) => text.push(t.clone()),
                        Chunk::Slot(s) => {
                            text.push(placeholder(i.entity_of(s)));
                            slots.push(s.clone());
                        }
                    }
                }
                let key = self.lookup_key(&text.join(" "), &stops);
                table.entry(key).or_insert((n, slots));
            }
        }
        table
    }

    pub fn scope_of(&self, i: &Intent) -> (Vec<String>, Vec<String>) {
        let mut b: Vec<String> = vec![];
        let mut c: Vec<String> = vec![];
        for (_, e) in &i.slots {
            let v = if is_builtin(e) { &mut b } else { &mut c };
            if !v.contains(e) {
                v.push(e.clone());
            }
        }
        b.sort();
        c.sort();
        (b, c)
    }

    /// intents grouped by their entities
    pub fn groups(&self) -> Vec<(Vec<String>, (Vec<String>, Vec<String>))> {
        let mut out: Vec<(Vec<String>, (Vec<String>, Vec<String>))> = vec![];
        for i in &self.intents {
            let s = self.scope_of(i);
            match out.iter_mut().find(|g| g.1 == s) {
                Some(g) => g.0.push(i.name.clone()),
                None => out.push((vec![i.name.clone()], s)),
            }
        }
        out
    }

    pub fn parser_dir(k: Kind) -> &'static str {
        match k {
            Kind::Lookup => "lookup_intent_parser",
            Kind::Det => "deterministic_intent_parser",
            Kind::Prob => "probabilistic_intent_parser",
        }
    }

    pub fn write(&self, dir: &Path) {
        fs::create_dir_all(dir).unwrap();
        let w = |p: &Path, v: &Value| {
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            fs::write(p, serde_json::to_string_pretty(v).unwrap()).unwrap()
        };
        let entities: Map<String, Value> =
            self.entities.iter().map(|e| (e.name.clone(), json!({"automatically_extensible": e.extensible}))).collect();
        let mappings: Map<String, Value> = self
            .intents
            .iter()
            .map(|i| (i.name.clone(), Value::Object(i.slots.iter().map(|(s, e)| (s.clone(), json!(e))).collect())))
            .collect();
        w(&dir.join("nlu_engine.json"), &json!({
            "unit_name": "nlu_engine",
            "model_version": "0.20.0",
            "training_package_version": "0.20.0",
            "dataset_metadata": {"language_code": self.lang, "entities": entities, "slot_name_mappings": mappings},
            "intent_parsers": self.parsers.iter().map(|k| Spec::parser_dir(*k)).collect::<Vec<_>>(),
            "builtin_entity_parser": "builtin_entity_parser",
            "custom_entity_parser": "custom_entity_parser",
        }));
        // entity parsers
        let b = dir.join("builtin_entity_parser");
        let rules: Vec<Value> = self.rules.iter().map(|r| json!({"text": r.text, "kind": r.kind, "value": r.value, "alternatives": r.alternatives})).collect();
        w(&b.join("metadata.json"), &json!({
            "language": self.lang, "rules": rules, "digits": self.digits,
            "gazetteer_parser": if self.bgaz.is_empty() { Value::Null } else { json!("gazetteer_entity_parser") },
        }));
        if !self.bgaz.is_empty() {
            self.write_gazetteer(&b.join("gazetteer_entity_parser"), &self.bgaz);
        }
        let c = dir.join("custom_entity_parser");
        w(&c.join("metadata.json"), &json!({"language": self.lang, "parser_directory": "parser", "parser_usage": self.custom_usage}));
        let custom: Vec<(String, Vec<(String, String)>)> = self.entities.iter().map(|e| (e.name.clone(), e.values.clone())).collect();
        self.write_gazetteer(&c.join("parser"), &custom);
        // resources
        let r = dir.join("resources").join(&self.lang);
        let mut meta = Map::new();
        meta.insert("language".into(), json!(self.lang));
        fs::create_dir_all(&r).unwrap();
        if !self.gazetteers.is_empty() {
            meta.insert("gazetteers".into(), json!(self.gazetteers.iter().map(|g| &g.0).collect::<Vec<_>>()));
            fs::create_dir_all(r.join("gazetteers")).unwrap();
            for (n, words) in &self.gazetteers {
                fs::write(r.join("gazetteers").join(format!("{}.txt", n)), words.join("\n") + "\n").unwrap();
            }
        }
        if !self.clusters.is_empty() {
            meta.insert("word_clusters".into(), json!(self.clusters.iter().map(|g| &g.0).collect::<Vec<_>>()));
            fs::create_dir_all(r.join("word_clusters")).unwrap();
            for (n, rows) in &self.clusters {
                let t: String = rows.iter().map(|(a, b)| format!("{}\t{}\n", a, b)).collect();
                fs::write(r.join("word_clusters").join(format!("{}.txt", n)), t).unwrap();
            }
        }
        if let Some(stems) = &self.stems {
            meta.insert("stems".into(), json!("stems"));
            fs::create_dir_all(r.join("stemming")).unwrap();
            let t: String = stems.iter().map(|(s, f)| format!("{},{}\n", s, f.join(","))).collect();
            fs::write(r.join("stemming").join("stems.txt"), t).unwrap();
        }
        if !self.stop_words.is_empty() {
            meta.insert("stop_words".into(), json!("stop_words"));
            fs::write(r.join("stop_words.txt"), self.stop_words.join("\n") + "\n").unwrap();
        }
        w(&r.join("metadata.json"), &Value::Object(meta));
        // parsers
        for k in &self.parsers {
            let d = dir.join(Spec::parser_dir(*k));
            w(&d.join("metadata.json"), &json!({"unit_name": Spec::parser_dir(*k)}));
            match k {
                Kind::Lookup => w(&d.join("intent_parser.json"), &self.lookup_json()),
                Kind::Det => w(&d.join("intent_parser.json"), &self.det_json()),
                Kind::Prob => self.write_prob(&d),
            }
        }
    }

    fn write_gazetteer(&self, dir: &Path, entities: &[(String, Vec<(String, String)>)]) {
        fs::create_dir_all(dir).unwrap();
        let mut meta = vec![];
        for (n, (name, values)) in entities.iter().enumerate() {
            let sub = format!("parser_{}", n + 1);
            meta.push(json!({"entity_identifier": name, "entity_parser": sub}));
            fs::create_dir_all(dir.join(&sub)).unwrap();
            fs::write(dir.join(&sub).join("metadata.json"),
                json!({"version": "0.1", "parser_filename": "parser", "threshold": 1.0, "stop_words": [], "edge_cases": []}).to_string()).unwrap();
            fs::write(dir.join(&sub).join("parser"), json!({"values": values}).to_string()).unwrap();
        }
        fs::write(dir.join("metadata.json"), json!({"parsers_metadata": meta}).to_string()).unwrap();
    }

    pub fn lookup_json(&self) -> Value {
        let mut slots_names: Vec<String> = self.intents.iter().flat_map(|i| i.slots.iter().map(|s| s.0.clone())).collect();
        slots_names.sort();
        slots_names.dedup();
        let map: Map<String, Value> = self
            .lookup_table()
            .into_iter()
            .map(|(k, (i, slots))| {
                let ids: Vec<usize> = slots.iter().map(|s| slots_names.iter().position(|n| n == s).unwrap()).collect();
                (hash_str_to_i32(&k).to_string(), json!([i, ids]))
            })
            .collect();
        let scopes: Vec<Value> = self
            .groups()
            .into_iter()
            .map(|(g, (b, c))| json!({"intent_group": g, "entity_scope": {"builtin": b, "custom": c}}))
            .collect();
        json!({
            "language_code": self.lang,
            "slots_names": slots_names,
            "intents_names": self.intents.iter().map(|i| &i.name).collect::<Vec<_>>(),
            "map": map,
            "entity_scopes": scopes,
            "stop_words_whitelist": self.whitelist,
            "config": {"ignore_stop_words": self.lk_ignore},
        })
    }

    pub fn det_json(&self) -> Value {
        let patterns: Map<String, Value> = self
            .intents
            .iter()
            .map(|i| (i.name.clone(), json!(self.patterns(i).iter().map(|p| self.regex_of(p)).collect::<Vec<_>>())))
            .collect();
        let mut groups = Map::new();
        let mut mapping = Map::new();
        for i in &self.intents {
            for (s, _) in &i.slots {
                groups.insert(self.group_name(s), json!(s));
            }
            mapping.insert(i.name.clone(), Value::Object(i.slots.iter().map(|(s, e)| (s.clone(), json!(e))).collect()));
        }
        json!({
            "language_code": self.lang,
            "patterns": patterns,
            "group_names_to_slot_names": groups,
            "slot_names_to_entities": mapping,
            "stop_words_whitelist": self.whitelist,
            "config": {"ignore_stop_words": self.det_ignore},
        })
    }

    pub fn write_prob(&self, d: &Path) {
        let fillers: Vec<Value> = self
            .fillers
            .iter()
            .enumerate()
            .map(|(n, f)| json!({"intent": f.intent, "slot_filler_name": format!("slot_filler_{}", n)}))
            .collect();
        fs::create_dir_all(d).unwrap();
        fs::write(d.join("intent_parser.json"), json!({"slot_fillers": fillers}).to_string()).unwrap();
        for (n, f) in self.fillers.iter().enumerate() {
            self.write_filler(&d.join(format!("slot_filler_{}", n)), f);
        }
        self.write_classifier(&d.join("intent_classifier"));
    }

    pub fn write_filler(&self, d: &Path, f: &Filler) {
        fs::create_dir_all(d).unwrap();
        fs::write(d.join("metadata.json"), json!({"unit_name": "crf_slot_filler"}).to_string()).unwrap();
        let factories: Vec<Value> =
            f.factories.iter().map(|x| json!({"factory_name": x.name, "offsets": x.offsets, "args": x.args})).collect();
        let mapping: Map<String, Value> = f.slots.iter().map(|(s, e)| (s.clone(), json!(e))).collect();
        fs::write(d.join("slot_filler.json"), json!({
            "language_code": self.lang,
            "intent": f.intent,
            "slot_name_mapping": mapping,
            "crf_model_file": if f.has_model { json!("model.crfsuite") } else { Value::Null },
            "config": {"tagging_scheme": f.scheme, "feature_factory_configs": factories},
        }).to_string()).unwrap();
        if f.has_model {
            fs::write(d.join("model.crfsuite"), json!({"labels": f.labels, "state": f.state, "trans": f.trans}).to_string()).unwrap();
        }
    }

    pub fn write_classifier(&self, d: &Path) {
        let c = &self.classifier;
        fs::create_dir_all(d).unwrap();
        fs::write(d.join("metadata.json"), json!({"unit_name": "log_reg_intent_classifier"}).to_string()).unwrap();
        fs::write(d.join("intent_classifier.json"), json!({
            "featurizer": if c.tfidf.is_some() { json!("featurizer") } else { Value::Null },
            "intercept": c.intercept,
            "coeffs": c.coeffs,
            "intent_list": c.intent_list,
        }).to_string()).unwrap();
        if let Some(t) = &c.tfidf {
            let fd = d.join("featurizer");
            fs::create_dir_all(fd.join("tfidf_vectorizer")).unwrap();
            fs::write(fd.join("metadata.json"), json!({"unit_name": "featurizer"}).to_string()).unwrap();
            fs::write(fd.join("featurizer.json"), json!({
                "language_code": self.lang,
                "tfidf_vectorizer": "tfidf_vectorizer",
                "cooccurrence_vectorizer": if c.cooc.is_some() { json!("cooccurrence_vectorizer") } else { Value::Null },
            }).to_string()).unwrap();
            let vocab: Map<String, Value> = t.vocab.iter().enumerate().map(|(i, w)| (w.clone(), json!(i))).collect();
            fs::write(fd.join("tfidf_vectorizer").join("vectorizer.json"), json!({
                "language_code": self.lang,
                "builtin_entity_scope": t.scope,
                "vectorizer": {"idf_diag": t.idf, "vocab": vocab},
                "config": {"use_stemming": t.stemming, "word_clusters_name": t.clusters},
            }).to_string()).unwrap();
            if let Some(co) = &c.cooc {
                fs::create_dir_all(fd.join("cooccurrence_vectorizer")).unwrap();
                let pairs: Map<String, Value> = co.pairs.iter().enumerate().map(|(i, p)| (i.to_string(), json!([p.0, p.1]))).collect();
                fs::write(fd.join("cooccurrence_vectorizer").join("vectorizer.json"), json!({
                    "language_code": self.lang,
                    "builtin_entity_scope": co.scope,
                    "word_pairs": pairs,
                    "config": {"window_size": co.window, "filter_stop_words": co.filter_stop_words, "keep_order": co.keep_order,
                               "unknown_words_replacement_string": co.unknown},
                }).to_string()).unwrap();
            }
        }
    }
}

pub fn stem_word(stems: &[(String, Vec<String>)], w: &str) -> String {
    let n = normalize(w);
    // the last line that lists the word wins
    stems.iter().rev().find(|(_, f)| f.contains(&n)).map(|(s, _)| s.clone()).unwrap_or_else(|| w.to_string())
}

pub fn stem_words(stems: &[(String, Vec<String>)], text: &str, ul: UL) -> String {
    tokenize_light(text, ul).iter().map(|w| stem_word(stems, w)).collect::<Vec<_>>().join(" ")
}

pub fn tokens_of(spec: &Spec, text: &str) -> Vec<snips_nlu_utils::token::Token> {
    tokenize(text, ulang(&spec.lang))
}
