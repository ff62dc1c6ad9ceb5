//! Stand-in for snips-nlu-parsers: deterministic builtin and gazetteer entity parsers.
//!
//! Contract the code under test relies on, and which this stand-in keeps: ranges are char ranges
//! of the text that was given, matches of one entity never overlap, the result does not depend on
//! the order of the scope, `max` bounds the number of alternatives.
use failure::{format_err, ResultExt};
use serde::{Deserialize, Serialize};
use snips_nlu_ontology::*;
use std::collections::HashMap;
use std::ops::Range;
use std::path::Path;

pub type Result<T> = std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BuiltinParserMetadata {
    pub language: String,
    pub gazetteer_parser: Option<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerParserMetadata {
    pub parsers_metadata: Vec<EntityParserMetadata>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EntityParserMetadata {
    pub entity_identifier: String,
    pub entity_parser: String,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub resolved_value: String,
    pub alternative_resolved_values: Vec<String>,
    pub range: Range<usize>,
    pub entity_identifier: T,
}

mod msgpack;

pub mod gazetteer_entity_parser {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct EntityValue {
        pub raw_value: String,
        pub resolved_value: String,
    }

    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct Metadata {
        version: String,
        parser_filename: String,
        threshold: f32,
        #[serde(default)]
        stop_words: Vec<String>,
        #[serde(default)]
        edge_cases: Vec<String>,
    }

    #[derive(Debug, Clone, Default, Serialize, Deserialize)]
    pub(crate) struct Data {
        /// by rank: raw tokens joined with a space, resolved value
        pub(crate) values: Vec<(String, String)>,
        /// how many of the values, from each end, were injected
        #[serde(default)]
        pub(crate) injected_front: usize,
        #[serde(default)]
        pub(crate) injected_back: usize,
    }

    #[derive(Debug, Clone)]
    pub struct Parser {
        threshold: f32,
        data: Data,
        tokens: Vec<Vec<String>>,
        /// token -> ranks of the values that contain it
        index: HashMap<String, Vec<usize>>,
        instance: u64,
    }

    #[derive(Debug, Clone, PartialEq)]
    pub struct Match {
        pub value: String,
        pub range: Range<usize>,
        pub resolved: String,
        pub alternatives: Vec<String>,
    }

    fn words(s: &str) -> Vec<(Range<usize>, String)> {
        let mut out: Vec<(Range<usize>, String)> = vec![];
        let mut open = false;
        for (i, c) in s.chars().enumerate() {
            if c.is_whitespace() {
                open = false;
            } else if open {
                let last = out.last_mut().unwrap();
                last.0.end = i + 1;
                last.1.push(c);
            } else {
                out.push((i..i + 1, c.to_string()));
                open = true;
            }
        }
        out
    }

    impl Parser {
        fn build(threshold: f32, data: Data) -> Parser {
            let tokens: Vec<Vec<String>> = data.values.iter().map(|(r, _)| words(r).into_iter().map(|w| w.1).collect()).collect();
            let mut index: HashMap<String, Vec<usize>> = HashMap::new();
            for (rank, ts) in tokens.iter().enumerate() {
                for t in ts {
                    let e = index.entry(t.clone()).or_insert_with(Vec::new);
                    if e.last() != Some(&rank) {
                        e.push(rank);
                    }
                }
            }
            Parser { threshold, data, tokens, index, instance: vmon::new_instance() }
        }

        pub fn from_folder<P: AsRef<Path>>(folder: P) -> Result<Parser> {
            let folder = folder.as_ref();
            let metadata_path = folder.join("metadata.json");
            let metadata: Metadata = serde_json::from_str(
                &std::fs::read_to_string(&metadata_path).with_context(|_| format!("Cannot open {:?}", metadata_path))?,
            )?;
            let bytes = std::fs::read(folder.join(&metadata.parser_filename))
                .with_context(|_| format!("Cannot open parser of {:?}", folder))?;
            let data = if bytes.first() == Some(&b'{') {
                serde_json::from_slice(&bytes)?
            } else {
                super::msgpack::gazetteer(&bytes)?
            };
            Ok(Parser::build(metadata.threshold, data))
        }

        pub fn inject_new_values(&mut self, values: Vec<EntityValue>, prepend: bool, from_vanilla: bool) -> Result<()> {
            vmon::enter("inject", self.instance, "").map_err(|e| format_err!("{}", e))?;
            let mut data = self.data.clone();
            if from_vanilla {
                let end = data.values.len() - data.injected_back;
                data.values = data.values[data.injected_front..end].to_vec();
                data.injected_front = 0;
                data.injected_back = 0;
            }
            let n = values.len();
            let new = values.into_iter().map(|v| (v.raw_value, v.resolved_value));
            if prepend {
                data.values = new.chain(data.values).collect();
                data.injected_front += n;
            } else {
                data.values.extend(new);
                data.injected_back += n;
            }
            *self = Parser::build(self.threshold, data);
            Ok(())
        }

        pub fn dump<P: AsRef<Path>>(&self, folder: P) -> Result<()> {
            vmon::enter("dump", self.instance, "").map_err(|e| format_err!("{}", e))?;
            let folder = folder.as_ref();
            std::fs::create_dir(folder)?;
            let metadata = Metadata {
                version: "stand-in".to_string(),
                parser_filename: "parser".to_string(),
                threshold: self.threshold,
                stop_words: vec![],
                edge_cases: vec![],
            };
            std::fs::write(folder.join("metadata.json"), serde_json::to_string(&metadata)?)?;
            std::fs::write(folder.join("parser"), serde_json::to_string(&self.data)?)?;
            Ok(())
        }

        /// Ranks of the values that the words match as a contiguous part, enough of it.
        fn matching(&self, ws: &[(Range<usize>, String)]) -> Vec<usize> {
            let candidates = match self.index.get(&ws[0].1) {
                Some(c) => c,
                None => return vec![],
            };
            candidates
                .iter()
                .cloned()
                .filter(|rank| {
                    let ts = &self.tokens[*rank];
                    ts.len() >= ws.len()
                        && ws.len() as f32 >= self.threshold * ts.len() as f32
                        && ts.windows(ws.len()).any(|w| w.iter().zip(ws).all(|(a, b)| *a == b.1))
                })
                .collect()
        }

        pub fn run(&self, text: &str, max_alternatives: usize) -> Vec<Match> {
            let ws = words(text);
            let longest = self.tokens.iter().map(Vec::len).max().unwrap_or(0);
            let mut out = vec![];
            let mut i = 0;
            while i < ws.len() {
                let mut next = i + 1;
                for n in (1..=longest.min(ws.len() - i)).rev() {
                    let ranks = self.matching(&ws[i..i + n]);
                    if ranks.is_empty() {
                        continue;
                    }
                    let resolved = self.data.values[ranks[0]].1.clone();
                    let mut alternatives: Vec<String> = vec![];
                    for r in &ranks[1..] {
                        let v = &self.data.values[*r].1;
                        if *v != resolved && !alternatives.contains(v) && alternatives.len() < max_alternatives {
                            alternatives.push(v.clone());
                        }
                    }
                    let range = ws[i].0.start..ws[i + n - 1].0.end;
                    let value = text.chars().skip(range.start).take(range.end - range.start).collect();
                    out.push(Match { value, range, resolved, alternatives });
                    next = i + n;
                    break;
                }
                i = next;
            }
            out
        }
    }
}

use gazetteer_entity_parser::Parser as EntityParser;

pub trait EntityIdentifier: Clone + Ord {
    fn from_id(s: &str) -> Result<Self>;
}
impl EntityIdentifier for String {
    fn from_id(s: &str) -> Result<Self> {
        Ok(s.to_string())
    }
}
impl EntityIdentifier for BuiltinGazetteerEntityKind {
    fn from_id(s: &str) -> Result<Self> {
        BuiltinGazetteerEntityKind::from_identifier(s)
    }
}

pub struct GazetteerParser<T> {
    parsers: Vec<(T, EntityParser)>,
    instance: u64,
}

impl<T: EntityIdentifier> GazetteerParser<T> {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let path = path.as_ref();
        let metadata_path = path.join("metadata.json");
        let metadata: GazetteerParserMetadata = serde_json::from_str(
            &std::fs::read_to_string(&metadata_path).with_context(|_| format!("Cannot open {:?}", metadata_path))?,
        )
        .with_context(|_| "Cannot deserialize gazetteer parser metadata")?;
        let parsers = metadata
            .parsers_metadata
            .iter()
            .map(|m| Ok((T::from_id(&m.entity_identifier)?, EntityParser::from_folder(path.join(&m.entity_parser))?)))
            .collect::<Result<Vec<_>>>()?;
        Ok(GazetteerParser { parsers, instance: vmon::new_instance() })
    }

    pub fn extract_entities(&self, sentence: &str, scope: Option<&[T]>, max_alternatives: usize) -> Result<Vec<GazetteerEntityMatch<T>>> {
        vmon::enter("custom", self.instance, sentence).map_err(|e| format_err!("{}", e))?;
        let mut out = self.scan(sentence, scope, max_alternatives);
        out.sort_by(|a, b| (a.range.start, a.range.end, &a.entity_identifier).cmp(&(b.range.start, b.range.end, &b.entity_identifier)));
        vmon::exit("custom", self.instance, || format!("{}", out.len()));
        Ok(out)
    }

    fn scan(&self, sentence: &str, scope: Option<&[T]>, max_alternatives: usize) -> Vec<GazetteerEntityMatch<T>> {
        let mut out = vec![];
        for (id, parser) in &self.parsers {
            if scope.map_or(true, |s| s.contains(id)) {
                out.extend(parser.run(sentence, max_alternatives).into_iter().map(|m| GazetteerEntityMatch {
                    value: m.value,
                    resolved_value: m.resolved,
                    alternative_resolved_values: m.alternatives,
                    range: m.range,
                    entity_identifier: id.clone(),
                }));
            }
        }
        out
    }
}

/// One row of the builtin rule table: `text` (lowercase, words and symbols) is an entity.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rule {
    text: String,
    kind: BuiltinEntityKind,
    value: SlotValue,
    #[serde(default)]
    alternatives: Vec<SlotValue>,
}

pub struct BuiltinEntityParser {
    rules: HashMap<BuiltinEntityKind, HashMap<Vec<String>, Rule>>,
    digits: bool,
    gazetteer: Option<GazetteerParser<BuiltinGazetteerEntityKind>>,
    instance: u64,
}

/// Maximal alphanumeric runs and single symbols.
fn pieces(s: &str) -> Vec<(Range<usize>, String)> {
    let mut out: Vec<(Range<usize>, String)> = vec![];
    let mut open = false;
    for (i, c) in s.chars().enumerate() {
        if c.is_whitespace() {
            open = false;
        } else if c.is_alphanumeric() {
            if open {
                let last = out.last_mut().unwrap();
                last.0.end = i + 1;
                last.1.push(c);
            } else {
                out.push((i..i + 1, c.to_string()));
                open = true;
            }
        } else {
            out.push((i..i + 1, c.to_string()));
            open = false;
        }
    }
    out
}

fn default_rules() -> Vec<Rule> {
    let mut rules = vec![];
    let mut number = |t: &str, v: f64| {
        rules.push(Rule { text: t.to_string(), kind: BuiltinEntityKind::Number, value: SlotValue::Number(v.into()), alternatives: vec![] });
    };
    for (i, w) in ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"].iter().enumerate() {
        number(w, i as f64);
        number(&format!("{} thousand", w), i as f64 * 1000.0);
        number(&format!("{} hundred", w), i as f64 * 100.0);
    }
    number("twenty", 20.0);
    number("fifty", 50.0);
    number("twenty one", 21.0);
    number("twenty two", 22.0);
    number("dix", 10.0);
    for (i, w) in ["first", "second", "third", "fourth", "fifth"].iter().enumerate() {
        rules.push(Rule { text: w.to_string(), kind: BuiltinEntityKind::Ordinal, value: SlotValue::Ordinal((i as i64 + 1).into()), alternatives: vec![] });
    }
    for w in &["today", "tomorrow", "tonight", "now", "at 8", "on tuesday", "at 2 p.m.", "at two p.m.", "tomorrow morning", "at 9p.m"] {
        rules.push(Rule {
            text: w.to_string(),
            kind: BuiltinEntityKind::Datetime,
            value: SlotValue::InstantTime(InstantTimeValue { value: format!("<{}>", w), grain: Grain::Hour, precision: Precision::Exact }),
            alternatives: vec![],
        });
    }
    // "two" alone is also read as a time and a temperature by the real parser
    for w in &["one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten"] {
        let at = InstantTimeValue { value: format!("<{}>", w), grain: Grain::Hour, precision: Precision::Exact };
        for kind in &[BuiltinEntityKind::Datetime, BuiltinEntityKind::Time] {
            rules.push(Rule { text: w.to_string(), kind: *kind, value: SlotValue::InstantTime(at.clone()), alternatives: vec![] });
        }
        rules.push(Rule {
            text: w.to_string(),
            kind: BuiltinEntityKind::Temperature,
            value: SlotValue::Temperature(TemperatureValue { value: 1.0, unit: None }),
            alternatives: vec![],
        });
    }
    for i in 1..20 {
        rules.push(Rule {
            text: format!("{} dollars", i),
            kind: BuiltinEntityKind::AmountOfMoney,
            value: SlotValue::AmountOfMoney(AmountOfMoneyValue { value: i as f32, precision: Precision::Exact, unit: Some("$".to_string()) }),
            alternatives: vec![],
        });
        rules.push(Rule {
            text: format!("{} degrees", i),
            kind: BuiltinEntityKind::Temperature,
            value: SlotValue::Temperature(TemperatureValue { value: i as f32, unit: Some("degree".to_string()) }),
            alternatives: vec![],
        });
    }
    rules
}

#[derive(Deserialize)]
struct RulesHolder {
    #[serde(default)]
    rules: Option<Vec<Rule>>,
    #[serde(default)]
    digits: Option<bool>,
}

impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let path = path.as_ref();
        let metadata_path = path.join("metadata.json");
        let text = std::fs::read_to_string(&metadata_path).with_context(|_| format!("Cannot open {:?}", metadata_path))?;
        let metadata: BuiltinParserMetadata = serde_json::from_str(&text).with_context(|_| "Cannot deserialize builtin parser metadata")?;
        let _language: Language = metadata.language.parse()?;
        let holder: RulesHolder = serde_json::from_str(&text)?;
        let gazetteer = match metadata.gazetteer_parser {
            Some(dir) => Some(GazetteerParser::from_path(path.join(dir))?),
            None => None,
        };
        let mut rules: HashMap<BuiltinEntityKind, HashMap<Vec<String>, Rule>> = HashMap::new();
        for r in holder.rules.unwrap_or_else(default_rules) {
            let key = pieces(&r.text).into_iter().map(|p| p.1).collect();
            rules.entry(r.kind).or_insert_with(HashMap::new).entry(key).or_insert(r);
        }
        Ok(BuiltinEntityParser { rules, digits: holder.digits.unwrap_or(true), gazetteer, instance: vmon::new_instance() })
    }

    pub fn extract_entities(&self, sentence: &str, kinds: Option<&[BuiltinEntityKind]>, max_alternatives: usize) -> Result<Vec<BuiltinEntity>> {
        vmon::enter("builtin", self.instance, sentence).map_err(|e| format_err!("{}", e))?;
        let ps = pieces(sentence);
        let chars: Vec<char> = sentence.chars().collect();
        let mut out: Vec<BuiltinEntity> = vec![];
        for kind in BuiltinEntityKind::all() {
            if !kinds.map_or(true, |k| k.contains(kind)) {
                continue;
            }
            let empty = HashMap::new();
            let table = self.rules.get(kind).unwrap_or(&empty);
            let longest = table.keys().map(Vec::len).max().unwrap_or(0).max(1);
            let mut i = 0;
            while i < ps.len() {
                let mut next = i + 1;
                for n in (1..=longest.min(ps.len() - i)).rev() {
                    let key: Vec<String> = ps[i..i + n].iter().map(|p| p.1.clone()).collect();
                    let mut found = table.get(&key).map(|r| (r.value.clone(), r.alternatives.clone()));
                    if found.is_none() && n == 1 && self.digits && *kind == BuiltinEntityKind::Number {
                        let w = &ps[i].1;
                        if w.len() < 16 && w.bytes().all(|b| b.is_ascii_digit()) {
                            found = Some((SlotValue::Number(w.parse::<f64>()?.into()), vec![]));
                        }
                    }
                    if let Some((value, alternatives)) = found {
                        let range = ps[i].0.start..ps[i + n - 1].0.end;
                        out.push(BuiltinEntity {
                            value: chars[range.clone()].iter().collect(),
                            range,
                            entity: value,
                            alternatives: alternatives.into_iter().take(max_alternatives).collect(),
                            entity_kind: *kind,
                        });
                        next = i + n;
                        break;
                    }
                }
                i = next;
            }
        }
        if let Some(g) = &self.gazetteer {
            let scope: Option<Vec<BuiltinGazetteerEntityKind>> = kinds.map(|ks| {
                ks.iter().filter_map(|k| BuiltinGazetteerEntityKind::from_identifier(k.identifier()).ok()).collect()
            });
            let slot_value = |k: BuiltinGazetteerEntityKind, v: String| match k {
                BuiltinGazetteerEntityKind::MusicAlbum => SlotValue::MusicAlbum(v.into()),
                BuiltinGazetteerEntityKind::MusicArtist => SlotValue::MusicArtist(v.into()),
                BuiltinGazetteerEntityKind::MusicTrack => SlotValue::MusicTrack(v.into()),
                BuiltinGazetteerEntityKind::City => SlotValue::City(v.into()),
                BuiltinGazetteerEntityKind::Country => SlotValue::Country(v.into()),
                BuiltinGazetteerEntityKind::Region => SlotValue::Region(v.into()),
            };
            out.extend(g.scan(sentence, scope.as_ref().map(|s| &s[..]), max_alternatives).into_iter().map(|m| {
                let k = m.entity_identifier;
                BuiltinEntity {
                    value: m.value,
                    range: m.range,
                    entity: slot_value(k, m.resolved_value),
                    alternatives: m.alternative_resolved_values.into_iter().map(|v| slot_value(k, v)).collect(),
                    entity_kind: k.into_builtin_kind(),
                }
            }));
        }
        out.sort_by(|a, b| (a.range.start, a.range.end, a.entity_kind).cmp(&(b.range.start, b.range.end, b.entity_kind)));
        vmon::exit("builtin", self.instance, || format!("{}", out.len()));
        Ok(out)
    }
}
