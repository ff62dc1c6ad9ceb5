//! Small engines for the demonstrations.
#![allow(dead_code)]
pub use crate::world::*;
pub use serde_json::{json, Value};
pub use snips_nlu_lib::SnipsNluEngine;
pub use std::path::{Path, PathBuf};
use std::collections::BTreeMap;

/// "make [number]{snips/number} cups of [drink]{Drink}": slots are written {name}
pub fn utt(s: &str) -> Vec<Chunk> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(a) = rest.find('{') {
        let b = rest.find('}').unwrap();
        if !rest[..a].trim().is_empty() {
            out.push(Chunk::Text(rest[..a].trim().to_string()));
        }
        out.push(Chunk::Slot(rest[a + 1..b].to_string()));
        rest = &rest[b + 1..];
    }
    if !rest.trim().is_empty() {
        out.push(Chunk::Text(rest.trim().to_string()));
    }
    out
}

pub fn intent(name: &str, slots: &[(&str, &str)], utts: &[&str]) -> Intent {
    Intent {
        name: name.into(),
        slots: slots.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        utts: utts.iter().map(|u| utt(u)).collect(),
    }
}

pub fn entity(name: &str, extensible: bool, values: &[(&str, &str)]) -> Entity {
    Entity { name: name.into(), extensible, values: values.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
}

pub fn number(text: &str, v: f64) -> Rule {
    Rule { text: text.into(), kind: "snips/number".into(), value: json!({"kind": "Number", "value": v}), alternatives: vec![] }
}

pub fn spec(intents: Vec<Intent>, entities: Vec<Entity>, parsers: Vec<Kind>) -> Spec {
    let intent_list: Vec<Option<String>> = intents.iter().map(|i| Some(i.name.clone())).chain(Some(None)).collect();
    let fillers = intents
        .iter()
        .map(|i| Filler {
            intent: i.name.clone(), scheme: 1, slots: i.slots.clone(), has_model: false,
            labels: vec![], state: vec![], trans: vec![], factories: vec![],
        })
        .collect();
    Spec {
        lang: "en".into(),
        entities,
        rules: vec![number("one", 1.0), number("two", 2.0), number("three", 3.0), number("twenty two", 22.0)],
        digits: true,
        bgaz: vec![],
        intents,
        stop_words: vec![],
        whitelist: BTreeMap::new(),
        det_ignore: false,
        lk_ignore: false,
        det_value_patterns: false,
        literals: vec![],
        parsers,
        classifier: Classifier { intent_list, tfidf: None, cooc: None, intercept: None, coeffs: None },
        fillers,
        stems: None,
        gazetteers: vec![],
        clusters: vec![],
        custom_usage: 1,
    }
}

pub fn write(s: &Spec) -> PathBuf {
    let d = tempfile::tempdir().unwrap().into_path();
    s.write(&d);
    d
}

pub fn load(s: &Spec) -> SnipsNluEngine {
    SnipsNluEngine::from_path(write(s)).unwrap()
}

/// intent, then slot name = raw value
pub fn brief(r: &snips_nlu_ontology::IntentParserResult) -> String {
    format!(
        "{}{}",
        r.intent.intent_name.clone().unwrap_or_else(|| "-".into()),
        r.slots.iter().map(|s| format!(" {}={}@{:?}", s.slot_name, s.raw_value, s.range)).collect::<String>()
    )
}

pub fn check(what: &str, got: impl std::fmt::Debug, wanted: impl std::fmt::Debug) {
    let (got, wanted) = (format!("{:?}", got), format!("{:?}", wanted));
    if got != wanted {
        println!("FAILED {}: got {}, expected {}", what, got, wanted);
        std::process::exit(1);
    }
    println!("ok {}: {}", what, got);
}

fn crc32(data: &[u8]) -> u32 {
    !data.iter().fold(!0u32, |c, b| (0..8).fold(c ^ *b as u32, |c, _| if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 }))
}

/// an archive of stored entries
pub fn zip(entries: &[(&str, &[u8])]) -> std::io::Cursor<Vec<u8>> {
    let (mut out, mut dir) = (vec![], vec![]);
    let p16 = |v: &mut Vec<u8>, x: usize| v.extend_from_slice(&(x as u16).to_le_bytes());
    let p32 = |v: &mut Vec<u8>, x: usize| v.extend_from_slice(&(x as u32).to_le_bytes());
    for (name, data) in entries {
        let at = out.len();
        let common = |v: &mut Vec<u8>| {
            p16(v, 20);
            p16(v, 1 << 11);
            p16(v, 0);
            p32(v, 0);
            p32(v, crc32(data) as usize);
            p32(v, data.len());
            p32(v, data.len());
            p16(v, name.len());
            p16(v, 0);
        };
        p32(&mut out, 0x0403_4b50);
        common(&mut out);
        out.extend_from_slice(name.as_bytes());
        out.extend_from_slice(data);
        p32(&mut dir, 0x0201_4b50);
        p16(&mut dir, 20 | 3 << 8);
        common(&mut dir);
        p16(&mut dir, 0);
        p16(&mut dir, 0);
        p16(&mut dir, 0);
        p32(&mut dir, 0o100644 << 16);
        p32(&mut dir, at);
        dir.extend_from_slice(name.as_bytes());
    }
    let at = out.len();
    out.extend_from_slice(&dir);
    p32(&mut out, 0x0605_4b50);
    p32(&mut out, 0);
    p16(&mut out, entries.len());
    p16(&mut out, entries.len());
    p32(&mut out, dir.len());
    p32(&mut out, at);
    p16(&mut out, 0);
    std::io::Cursor::new(out)
}

/// the files below a directory, with their paths from its parent
pub fn files(dir: &Path) -> Vec<(String, Vec<u8>)> {
    fn walk(base: &Path, d: &Path, out: &mut Vec<(String, Vec<u8>)>) {
        let mut l: Vec<PathBuf> = std::fs::read_dir(d).unwrap().map(|f| f.unwrap().path()).collect();
        l.sort();
        for p in l {
            if p.is_dir() {
                walk(base, &p, out);
            } else {
                out.push((p.strip_prefix(base).unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut out = vec![];
    walk(dir.parent().unwrap(), dir, &mut out);
    out
}
