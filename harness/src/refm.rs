//! Independent reference: what the pattern parser, the lookup parser and slot resolution must answer.
use crate::world::*;
use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind, Slot, SlotValue};
use snips_nlu_parsers::{BuiltinEntityParser, GazetteerEntityMatch, GazetteerParser};
use snips_nlu_utils::language::Language as UL;
use snips_nlu_utils::string::{hash_str_to_i32, normalize};
use snips_nlu_utils::token::{tokenize, tokenize_light};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::ops::Range;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RSlot {
    pub name: String,
    pub entity: String,
    pub range: (usize, usize),
}

/// per intent, the acceptable lists of slots
pub type Options = Vec<(String, Vec<Vec<RSlot>>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub name: String,
    pub range: Range<usize>,
}

pub struct Refm {
    pub spec: Spec,
    pub ul: UL,
    builtin: BuiltinEntityParser,
    custom: GazetteerParser<String>,
    table: BTreeMap<String, (usize, Vec<String>)>,
    hashes: BTreeSet<i32>,
}

pub fn sub(text: &str, r: &Range<usize>) -> String {
    text.chars().skip(r.start).take(r.end - r.start).collect()
}

/// the lowercase form, and for each of its characters the one it comes from
pub fn lower(text: &str) -> (String, Vec<usize>) {
    let mut from = vec![];
    for (i, c) in text.chars().enumerate() {
        for _ in c.to_lowercase() {
            from.push(i);
        }
    }
    (text.to_lowercase(), from)
}

fn same_char(a: char, b: char) -> bool {
    a == b || a.to_lowercase().eq(b.to_lowercase()) || a.to_uppercase().eq(b.to_uppercase())
}

fn overlap(a: &Range<usize>, b: &Range<usize>) -> bool {
    a.start < b.end && b.start < a.end
}

/// longest first, the first of equals; then by place
pub fn dedup(ents: &[Ent]) -> Vec<Ent> {
    let mut order: Vec<usize> = (0..ents.len()).collect();
    order.sort_by_key(|i| (-((ents[*i].range.end - ents[*i].range.start) as i64), *i));
    let mut kept: Vec<Ent> = vec![];
    for i in order {
        if !kept.iter().any(|k| overlap(&k.range, &ents[i].range)) {
            kept.push(ents[i].clone());
        }
    }
    kept.sort_by_key(|e| e.range.start);
    kept
}

struct Cells {
    chars: Vec<char>,
    orig: Vec<Range<usize>>,
}

impl Cells {
    fn raw(text: &str) -> Cells {
        let chars: Vec<char> = text.chars().collect();
        let orig = (0..chars.len()).map(|i| i..i + 1).collect();
        Cells { chars, orig }
    }
    fn formatted(text: &str, ents: &[Ent], marker: &dyn Fn(&str) -> String) -> Cells {
        let chars: Vec<char> = text.chars().collect();
        let mut c = Cells { chars: vec![], orig: vec![] };
        let mut i = 0;
        while i < chars.len() {
            if let Some(e) = ents.iter().find(|e| e.range.start == i) {
                for m in marker(&e.name).chars() {
                    c.chars.push(m);
                    c.orig.push(e.range.clone());
                }
                i = e.range.end;
            } else {
                c.chars.push(chars[i]);
                c.orig.push(i..i + 1);
                i += 1;
            }
        }
        c
    }
    /// blanks for everything ignored
    fn clean(&mut self, stops: &BTreeSet<String>, ul: UL) {
        let s: String = self.chars.iter().collect();
        let mut keep = vec![false; self.chars.len()];
        for t in tokenize(&s, ul) {
            if !stops.contains(&normalize(&t.value)) {
                for k in t.char_range.clone() {
                    keep[k] = true;
                }
            }
        }
        for (i, k) in keep.iter().enumerate() {
            if !k {
                self.chars[i] = ' ';
            }
        }
    }
    fn skip(&self, mut i: usize) -> usize {
        while i < self.chars.len() && self.chars[i].is_whitespace() {
            i += 1;
        }
        i
    }
    /// end of the words matched at `i`
    fn words(&self, i: usize, words: &[String]) -> Option<usize> {
        let mut p = i;
        for (n, w) in words.iter().enumerate() {
            if n > 0 {
                p = self.skip(p);
            }
            for c in w.chars() {
                if p >= self.chars.len() || !same_char(self.chars[p], c) {
                    return None;
                }
                p += 1;
            }
        }
        Some(p)
    }
    /// `dead`: what is left to match, and where, without any success
    fn matches(
        &self,
        items: &[Item],
        i: usize,
        caps: &mut Vec<(String, usize, usize)>,
        out: &mut Vec<Vec<(String, usize, usize)>>,
        dead: &mut HashSet<(usize, usize)>,
    ) {
        if out.len() >= MANY || dead.contains(&(items.len(), i)) {
            return;
        }
        let before = out.len();
        let p = self.skip(i);
        let (item, rest) = match items.split_first() {
            None => {
                if p == self.chars.len() {
                    out.push(caps.clone());
                }
                return;
            }
            Some(x) => x,
        };
        for alt in &item.alts {
            if let Some(end) = self.words(p, alt) {
                if let Some(slot) = &item.slot {
                    caps.push((slot.clone(), p, end));
                }
                self.matches(rest, end, caps, out, dead);
                if item.slot.is_some() {
                    caps.pop();
                }
            }
        }
        if out.len() == before {
            dead.insert((items.len(), i));
        }
    }
}

/// ways to match a text beyond which it is left out
const MANY: usize = 100;

impl Refm {
    pub fn new(spec: &Spec, dir: &Path) -> Refm {
        let table = spec.lookup_table();
        let hashes = table.keys().map(|k| hash_str_to_i32(k)).collect();
        Refm {
            spec: spec.clone(),
            ul: ulang(&spec.lang),
            builtin: BuiltinEntityParser::from_path(dir.join("builtin_entity_parser")).unwrap(),
            custom: GazetteerParser::from_path(dir.join("custom_entity_parser").join("parser")).unwrap(),
            table,
            hashes,
        }
    }

    pub fn custom(&self, text: &str, scope: Option<&[String]>, max: usize) -> Vec<GazetteerEntityMatch<String>> {
        let (l, from) = lower(text);
        let tokens = tokenize(&l, self.ul);
        let joined = tokens.iter().map(|t| t.value.clone()).collect::<Vec<_>>().join(" ");
        let mut starts = BTreeMap::new();
        let mut ends = BTreeMap::new();
        let mut at = 0;
        for t in &tokens {
            let n = t.value.chars().count();
            starts.insert(at, t.char_range.start);
            ends.insert(at + n, t.char_range.end);
            at += n + 1;
        }
        self.custom
            .extract_entities(&joined, scope, max)
            .unwrap()
            .into_iter()
            .map(|mut m| {
                m.range = from[starts[&m.range.start]]..from[ends[&m.range.end] - 1] + 1;
                m
            })
            .collect()
    }

    pub fn builtin(&self, text: &str, kinds: Option<&[String]>, max: usize) -> Vec<BuiltinEntity> {
        let kinds: Option<Vec<BuiltinEntityKind>> =
            kinds.map(|ks| ks.iter().map(|k| BuiltinEntityKind::from_identifier(k).unwrap()).collect());
        let (l, from) = lower(text);
        let mut found = self.builtin.extract_entities(&l, kinds.as_ref().map(|k| &k[..]), max).unwrap();
        for e in found.iter_mut() {
            e.range = from[e.range.start]..from[e.range.end - 1] + 1;
        }
        found
    }

    /// what both parsers find, builtin first
    pub fn entities(&self, text: &str, builtin: Option<&[String]>, custom: Option<&[String]>) -> Vec<Ent> {
        let mut out: Vec<Ent> = self
            .builtin(text, builtin, 0)
            .into_iter()
            .map(|e| Ent { name: e.entity_kind.identifier().to_string(), range: e.range })
            .collect();
        out.extend(self.custom(text, custom, 0).into_iter().map(|e| Ent { name: e.entity_identifier, range: e.range }));
        out
    }

    /// the most entities the lookup parser has to combine for this text
    pub fn load_of(&self, text: &str) -> usize {
        self.spec.groups().iter().map(|(_, (b, c))| dedup(&self.entities(text, Some(b), Some(c))).len()).max().unwrap_or(0)
    }

    pub fn replace(&self, text: &str, ents: &[Ent], marker: &dyn Fn(&str) -> String) -> String {
        Cells::formatted(text, ents, marker).chars.into_iter().collect()
    }

    /// None: too many ways to match
    pub fn det_options(&self, text: &str, allowed: Option<&[&str]>) -> Option<Options> {
        let mut out = vec![];
        for i in &self.spec.intents {
            if !allowed.map_or(true, |a| a.contains(&&*i.name)) {
                continue;
            }
            let (b, c) = self.spec.scope_of(i);
            let ents = dedup(&self.entities(text, Some(&b), Some(&c)));
            let stops = self.spec.stops_of(&i.name, self.spec.det_ignore);
            let mut sets: Vec<Vec<RSlot>> = vec![];
            let mut raw = Cells::raw(text);
            let mut formatted = Cells::formatted(text, &ents, &placeholder);
            raw.clean(&stops, self.ul);
            formatted.clean(&stops, self.ul);
            for cells in &[raw, formatted] {
                for p in self.spec.patterns(i) {
                    let mut found = vec![];
                    cells.matches(&p, 0, &mut vec![], &mut found, &mut HashSet::new());
                    if found.len() >= MANY {
                        return None;
                    }
                    for caps in found {
                        let slots: Vec<RSlot> = caps
                            .into_iter()
                            .map(|(name, s, e)| RSlot {
                                entity: i.entity_of(&name).to_string(),
                                name,
                                range: (cells.orig[s].start, cells.orig[e - 1].end),
                            })
                            .collect();
                        if !sets.contains(&slots) {
                            sets.push(slots);
                        }
                    }
                }
            }
            if !sets.is_empty() {
                out.push((i.name.clone(), sets));
            }
        }
        Some(out)
    }

    /// None: a hash collision makes the answer unspecified
    pub fn lookup_options(&self, text: &str, allowed: Option<&[&str]>) -> Option<Options> {
        let mut found: BTreeMap<String, Vec<Vec<RSlot>>> = BTreeMap::new();
        for (group, (b, c)) in self.spec.groups() {
            let group: Vec<&String> = group.iter().filter(|i| allowed.map_or(true, |a| a.contains(&&***i))).collect();
            if group.is_empty() {
                continue;
            }
            let ents = dedup(&self.entities(text, Some(&b), Some(&c)));
            assert!(ents.len() <= 14, "too many entities for the reference");
            for mask in 0..1u32 << ents.len() {
                let kept: Vec<Ent> = ents.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, e)| e.clone()).collect();
                let replaced = self.replace(text, &kept, &placeholder);
                for name in &group {
                    let stops = self.spec.stops_of(name, self.spec.lk_ignore);
                    let key = self.spec.lookup_key(&replaced, &stops);
                    match self.table.get(&key) {
                        Some((intent, slots)) => {
                            let i = &self.spec.intents[*intent];
                            if i.name == **name && slots.len() == kept.len() {
                                let slots: Vec<RSlot> = slots
                                    .iter()
                                    .zip(&kept)
                                    .map(|(s, e)| RSlot { name: s.clone(), entity: e.name.clone(), range: (e.range.start, e.range.end) })
                                    .collect();
                                let v = found.entry(i.name.clone()).or_insert_with(Vec::new);
                                if !v.contains(&slots) {
                                    v.push(slots);
                                }
                            }
                        }
                        None => {
                            if self.hashes.contains(&hash_str_to_i32(&key)) {
                                return None;
                            }
                        }
                    }
                }
            }
        }
        Some(
            found
                .into_iter()
                .map(|(i, sets)| {
                    let min = sets.iter().map(Vec::len).min().unwrap();
                    (i, sets.into_iter().filter(|s| s.len() == min).collect())
                })
                .collect(),
        )
    }

    /// the values a slot may take; None stands for "dropped"
    pub fn resolve(&self, text: &str, raw: &str, entity: &str, range: &Range<usize>, n: usize, scope: &[String]) -> Vec<Option<(SlotValue, Vec<SlotValue>)>> {
        if is_builtin(entity) {
            let kinds: Vec<String> = scope.iter().filter(|s| is_builtin(s)).cloned().collect();
            let at: Vec<_> = self
                .builtin(text, Some(&kinds), n)
                .into_iter()
                .filter(|e| e.entity_kind.identifier() == entity && e.range == *range)
                .collect();
            let found = if at.is_empty() { self.builtin(raw, Some(&[entity.to_string()]), n) } else { at };
            if found.is_empty() {
                return vec![None];
            }
            return found.into_iter().map(|e| Some((e.entity, e.alternatives))).collect();
        }
        let to = |e: GazetteerEntityMatch<String>| {
            let v = |s: String| SlotValue::Custom(s.into());
            Some((v(e.resolved_value), e.alternative_resolved_values.into_iter().map(v).collect::<Vec<_>>()))
        };
        let extensible = self.spec.entities.iter().find(|e| e.name == entity).map_or(false, |e| e.extensible);
        let scope = vec![entity.to_string()];
        let at: Vec<_> = self.custom(text, Some(&scope), n).into_iter().filter(|e| e.range == *range).collect();
        if !at.is_empty() {
            return at.into_iter().map(to).collect();
        }
        let default = if extensible { Some((SlotValue::Custom(raw.to_string().into()), vec![])) } else { None };
        let len = raw.chars().count();
        let whole: Vec<_> = self.custom(raw, Some(&scope), n).into_iter().filter(|e| e.range == (0..len)).collect();
        if whole.is_empty() {
            return vec![default];
        }
        // words of the value apart by more than a blank: both readings of "as a whole" are accepted
        let strict = whole.iter().all(|e| e.value.chars().count() == len);
        let mut out: Vec<_> = whole.into_iter().map(to).collect();
        if !strict {
            out.push(default);
        }
        out
    }

    pub fn placeholder_light(&self, e: &str) -> String {
        tokenize_light(e, self.ul).join("").to_uppercase()
    }
}

/// What a parse by patterns or table may answer: every (intent, confidence, slots), None for 'no intent'.
pub fn answers(options: &Options) -> Option<Vec<(Option<(String, Vec<Vec<RSlot>>)>, f32)>> {
    let choices = confidences(options)?;
    let mut out: Vec<(Option<(String, Vec<Vec<RSlot>>)>, f32)> = vec![];
    for c in choices {
        let best = c.iter().map(|x| x.1).fold(0.0f32, f32::max);
        if c.is_empty() || best <= 0.5 + 1e-6 {
            out.push((None, 1.0));
        }
        for (k, (count, conf)) in c.iter().enumerate() {
            if *conf >= best - 1e-6 && *conf > 0.5 - 1e-6 && (*conf > 0.5 + 1e-6 || c.len() == 1) {
                let sets: Vec<Vec<RSlot>> = options[k].1.iter().filter(|s| s.len() == *count).cloned().collect();
                out.push((Some((options[k].0.clone(), sets)), *conf));
            }
        }
    }
    Some(out)
}

/// Every admissible list of (number of slots, confidence), in the order of the options. None: too many.
pub fn confidences(options: &Options) -> Option<Vec<Vec<(usize, f32)>>> {
    let counts: Vec<Vec<usize>> = options.iter().map(|(_, s)| s.iter().map(Vec::len).collect::<BTreeSet<_>>().into_iter().collect()).collect();
    let total: usize = counts.iter().map(Vec::len).product();
    if total > 64 {
        return None;
    }
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for c in &counts {
        out = out.into_iter().flat_map(|p| c.iter().map(move |n| [&p[..], &[*n]].concat())).collect();
    }
    Some(
        out.into_iter()
            .map(|ns| {
                let w: f32 = ns.iter().map(|n| 1.0 / (1.0 + *n as f32)).sum();
                ns.into_iter().map(|n| (n, 1.0 / (1.0 + n as f32) / w)).collect()
            })
            .collect(),
    )
}

pub fn raw_ok(text: &str, slots: &[Slot]) -> Result<(), String> {
    let n = text.chars().count();
    let mut end = 0;
    for s in slots {
        if s.range.start > s.range.end || s.range.end > n {
            return Err(format!("the range {:?} is not inside the text of {} characters", s.range, n));
        }
        if sub(text, &s.range) != s.raw_value {
            return Err(format!("raw value {:?} is not the text {:?} at {:?}", s.raw_value, sub(text, &s.range), s.range));
        }
        if s.range.start < end {
            return Err(format!("slots overlap or are out of order at {:?}", s.range));
        }
        end = s.range.end;
    }
    Ok(())
}
