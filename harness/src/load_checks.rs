//! Checks of model loading: damaged directories and archives, hostile archives.
use crate::core::*;
use crate::engine_checks::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use snips_nlu_lib::{SnipsNluEngine, MODEL_VERSION};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- archives

#[derive(Clone, Debug)]
pub struct ZEntry {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub deflate: bool,
    pub utf8: bool,
    pub mode: u32,
    pub bad_crc: bool,
}

impl ZEntry {
    pub fn new<N: AsRef<[u8]>, D: AsRef<[u8]>>(name: N, data: D) -> ZEntry {
        ZEntry { name: name.as_ref().to_vec(), data: data.as_ref().to_vec(), deflate: false, utf8: true, mode: 0, bad_crc: false }
    }
}

fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

pub fn zip_of(entries: &[ZEntry]) -> Vec<u8> {
    let mut out = vec![];
    let mut dir = vec![];
    let p16 = |v: &mut Vec<u8>, x: usize| v.extend_from_slice(&(x as u16).to_le_bytes());
    let p32 = |v: &mut Vec<u8>, x: usize| v.extend_from_slice(&(x as u32).to_le_bytes());
    for e in entries {
        let body = if e.deflate { miniz_oxide::deflate::compress_to_vec(&e.data, 6) } else { e.data.clone() };
        let crc = crc32(&e.data) ^ if e.bad_crc { 1 } else { 0 };
        let at = out.len();
        let common = |v: &mut Vec<u8>| {
            p16(v, 20);
            p16(v, if e.utf8 { 1 << 11 } else { 0 });
            p16(v, if e.deflate { 8 } else { 0 });
            p32(v, 0);
            p32(v, crc as usize);
            p32(v, body.len());
            p32(v, e.data.len());
            p16(v, e.name.len());
            p16(v, 0);
        };
        p32(&mut out, 0x0403_4b50);
        common(&mut out);
        out.extend_from_slice(&e.name);
        out.extend_from_slice(&body);
        p32(&mut dir, 0x0201_4b50);
        p16(&mut dir, 20 | 3 << 8);
        common(&mut dir);
        p16(&mut dir, 0);
        p16(&mut dir, 0);
        p16(&mut dir, 0);
        p32(&mut dir, (e.mode as usize) << 16);
        p32(&mut dir, at);
        dir.extend_from_slice(&e.name);
    }
    let at = out.len();
    out.extend_from_slice(&dir);
    p32(&mut out, 0x0605_4b50);
    p32(&mut out, 0);
    p16(&mut out, entries.len());
    p16(&mut out, entries.len());
    p32(&mut out, dir.len());
    p32(&mut out, at);
    p16(&mut out, 0);
    out
}

/// relative paths of everything below, directories with a trailing slash, sorted
pub fn listing(dir: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    fn walk(base: &Path, dir: &Path, out: &mut Vec<(String, Option<Vec<u8>>)>) {
        let mut items: Vec<PathBuf> = match fs::read_dir(dir) {
            Ok(r) => r.filter_map(|e| e.ok().map(|e| e.path())).collect(),
            Err(_) => return,
        };
        items.sort();
        for p in items {
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let meta = match fs::symlink_metadata(&p) {
                Ok(m) => m,
                Err(_) => continue,
            };
            if meta.file_type().is_symlink() {
                out.push((rel, Some(format!("-> {:?}", fs::read_link(&p)).into_bytes())));
            } else if meta.is_dir() {
                out.push((rel + "/", None));
                walk(base, &p, out);
            } else {
                let data = fs::read(&p).unwrap_or_default();
                out.push((rel, Some(data)));
            }
        }
    }
    let mut out = vec![];
    walk(dir, dir, &mut out);
    out
}

/// the entries of an archive of `dir`, below `top`
pub fn entries_of(dir: &Path, top: &str, rng: &mut Rng) -> Vec<ZEntry> {
    let with_dirs = rng.chance(60);
    let deflate = rng.chance(60);
    let mut v = vec![];
    if with_dirs {
        v.push(ZEntry::new(format!("{}/", top), ""));
    }
    for (name, data) in listing(dir) {
        match data {
            None if !with_dirs => (),
            // a link leads nowhere
            Some(d) if d.starts_with(b"-> ") => (),
            data => {
                let mut e = ZEntry::new(format!("{}/{}", top, name), data.unwrap_or_default());
                e.deflate = deflate && !name.ends_with('/');
                v.push(e);
            }
        }
    }
    if rng.chance(30) {
        // directories may come after their files
        rng.shuffle(&mut v);
    }
    v
}

pub fn from_zip(bytes: Vec<u8>) -> Result<Result<SnipsNluEngine, failure::Error>, String> {
    guard(|| SnipsNluEngine::from_zip(std::io::Cursor::new(bytes)))
}

/// Gives its bytes in small pieces, with interruptions, and some of its calls fail.
struct Rough {
    inner: std::io::Cursor<Vec<u8>>,
    calls: std::rc::Rc<std::cell::Cell<usize>>,
    piece: usize,
    fails: std::ops::Range<usize>,
    fired: std::rc::Rc<std::cell::Cell<bool>>,
}

impl Rough {
    fn call(&mut self) -> std::io::Result<()> {
        self.calls.set(self.calls.get() + 1);
        if self.fails.contains(&self.calls.get()) {
            self.fired.set(true);
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "the disk is on fire"));
        }
        Ok(())
    }
}

impl std::io::Read for Rough {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.call()?;
        if self.calls.get() % 5 == 3 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "a signal"));
        }
        let n = std::cmp::min(buf.len(), self.piece);
        self.inner.read(&mut buf[..n])
    }
}

impl std::io::Seek for Rough {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        self.call()?;
        self.inner.seek(to)
    }
}

/// from_zip with a reader that is slow and may fail; tells whether it did, and how often it was called
fn from_rough_zip(bytes: Vec<u8>, piece: usize, fails: std::ops::Range<usize>) -> (Result<Result<SnipsNluEngine, failure::Error>, String>, bool, usize) {
    let (fired, calls) = <(std::rc::Rc<std::cell::Cell<bool>>, std::rc::Rc<std::cell::Cell<usize>>)>::default();
    let (f, c) = (fired.clone(), calls.clone());
    let r = guard(move || SnipsNluEngine::from_zip(Rough { inner: std::io::Cursor::new(bytes), calls: c, piece, fails, fired: f }));
    (r, fired.get(), calls.get())
}

fn chain(e: &failure::Error) -> String {
    e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join(" <- ")
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Json,
    Text,
}

/// the files the engine cannot do without
fn required(spec: &Spec) -> Vec<(String, Form)> {
    let mut v: Vec<(String, Form)> = vec![
        ("nlu_engine.json".into(), Form::Json),
        ("builtin_entity_parser/metadata.json".into(), Form::Json),
        ("custom_entity_parser/metadata.json".into(), Form::Json),
        ("custom_entity_parser/parser/metadata.json".into(), Form::Json),
        (format!("resources/{}/metadata.json", spec.lang), Form::Json),
    ];
    let res = format!("resources/{}", spec.lang);
    for g in &spec.gazetteers {
        v.push((format!("{}/gazetteers/{}.txt", res, g.0), Form::Text));
    }
    for g in &spec.clusters {
        v.push((format!("{}/word_clusters/{}.txt", res, g.0), Form::Text));
    }
    if spec.stems.is_some() {
        v.push((format!("{}/stemming/stems.txt", res), Form::Text));
    }
    if !spec.stop_words.is_empty() {
        v.push((format!("{}/stop_words.txt", res), Form::Text));
    }
    for k in &spec.parsers {
        let d = Spec::parser_dir(*k);
        v.push((format!("{}/metadata.json", d), Form::Json));
        v.push((format!("{}/intent_parser.json", d), Form::Json));
        if *k == Kind::Prob {
            let c = format!("{}/intent_classifier", d);
            v.push((format!("{}/metadata.json", c), Form::Json));
            v.push((format!("{}/intent_classifier.json", c), Form::Json));
            if spec.classifier.tfidf.is_some() {
                v.push((format!("{}/featurizer/featurizer.json", c), Form::Json));
                v.push((format!("{}/featurizer/tfidf_vectorizer/vectorizer.json", c), Form::Json));
                if spec.classifier.cooc.is_some() {
                    v.push((format!("{}/featurizer/cooccurrence_vectorizer/vectorizer.json", c), Form::Json));
                }
            }
            for (n, f) in spec.fillers.iter().enumerate() {
                v.push((format!("{}/slot_filler_{}/metadata.json", d, n), Form::Json));
                v.push((format!("{}/slot_filler_{}/slot_filler.json", d, n), Form::Json));
                if f.has_model {
                    v.push((format!("{}/slot_filler_{}/model.crfsuite", d, n), Form::Json));
                }
            }
        }
    }
    v
}

/// (file, pointer): the keys without which a file says nothing
fn required_keys(spec: &Spec) -> Vec<(String, &'static str)> {
    let mut v: Vec<(String, &'static str)> = vec![];
    let mut add = |f: &str, keys: &[&'static str]| v.extend(keys.iter().map(|k| (f.to_string(), *k)));
    add("nlu_engine.json", &["/dataset_metadata", "/intent_parsers", "/model_version", "/builtin_entity_parser", "/custom_entity_parser",
        "/dataset_metadata/language_code", "/dataset_metadata/entities", "/dataset_metadata/slot_name_mappings"]);
    add("custom_entity_parser/metadata.json", &["/language", "/parser_directory", "/parser_usage"]);
    for k in &spec.parsers {
        let d = Spec::parser_dir(*k);
        add(&format!("{}/metadata.json", d), &["/unit_name"]);
        let f = format!("{}/intent_parser.json", d);
        match k {
            Kind::Det => add(&f, &["/language_code", "/patterns", "/group_names_to_slot_names", "/slot_names_to_entities", "/config"]),
            Kind::Lookup => add(&f, &["/language_code", "/slots_names", "/intents_names", "/map", "/entity_scopes", "/config"]),
            Kind::Prob => {
                add(&f, &["/slot_fillers"]);
                let c = format!("{}/intent_classifier", d);
                add(&format!("{}/metadata.json", c), &["/unit_name"]);
                add(&format!("{}/intent_classifier.json", c), &["/intent_list"]);
                if spec.classifier.tfidf.is_some() {
                    add(&format!("{}/featurizer/featurizer.json", c), &["/tfidf_vectorizer"]);
                    add(&format!("{}/featurizer/tfidf_vectorizer/vectorizer.json", c),
                        &["/language_code", "/builtin_entity_scope", "/vectorizer", "/vectorizer/idf_diag", "/vectorizer/vocab", "/config", "/config/use_stemming"]);
                    if spec.classifier.cooc.is_some() {
                        add(&format!("{}/featurizer/cooccurrence_vectorizer/vectorizer.json", c),
                            &["/language_code", "/builtin_entity_scope", "/word_pairs", "/config", "/config/keep_order", "/config/filter_stop_words"]);
                    }
                }
                for n in 0..spec.fillers.len() {
                    add(&format!("{}/slot_filler_{}/metadata.json", d, n), &["/unit_name"]);
                    add(&format!("{}/slot_filler_{}/slot_filler.json", d, n),
                        &["/language_code", "/slot_name_mapping", "/config", "/config/tagging_scheme", "/config/feature_factory_configs"]);
                }
            }
        }
    }
    v
}

/// the files which are read by the engine itself, not by the libraries it uses
pub fn files_of_the_engine(spec: &Spec) -> Vec<String> {
    let mut v: Vec<String> = required_keys(spec).into_iter().map(|(f, _)| f).filter(|f| f != "custom_entity_parser/metadata.json").collect();
    v.push(format!("resources/{}/metadata.json", spec.lang));
    v.sort();
    v.dedup();
    v
}

/// (file, pointer, value) with a name of something that does not exist
fn unknown_names(spec: &Spec, rng: &mut Rng) -> Vec<(String, String, Value)> {
    let lang = |rng: &mut Rng| json!(*rng.pick(&["xx", "", "klingon", "e", "enn", "en-", "🇬🇧", "zz_ZZ"]));
    let unit = |rng: &mut Rng, others: &[&str]| {
        let mut all = vec!["", "unknown_unit", "lookup", "LookupIntentParser", "nlu_engine", "crf_slot_filler ", "featurizer"];
        all.extend(others);
        json!(*rng.pick(&all))
    };
    let missing = |rng: &mut Rng| json!(*rng.pick(&["missing", "missing/below", "../missing", "manquant é", "missing.json"]));
    let mut v: Vec<(String, String, Value)> = vec![];
    let mut add = |f: &str, p: &str, x: Value| v.push((f.to_string(), p.to_string(), x));
    add("nlu_engine.json", "/dataset_metadata/language_code", lang(rng));
    add("nlu_engine.json", "/builtin_entity_parser", missing(rng));
    add("nlu_engine.json", "/custom_entity_parser", missing(rng));
    let i = rng.below(spec.parsers.len());
    add("nlu_engine.json", &format!("/intent_parsers/{}", i), missing(rng));
    add("nlu_engine.json", "/intent_parsers/-", missing(rng));
    add("custom_entity_parser/metadata.json", "/language", lang(rng));
    add("custom_entity_parser/metadata.json", "/parser_directory", missing(rng));
    add("custom_entity_parser/metadata.json", "/parser_usage", json!(*rng.pick(&[3i64, 4, 255, 256, 258, -1, 1 << 32])));
    let res = format!("resources/{}/metadata.json", spec.lang);
    let w = |rng: &mut Rng| json!(*rng.pick(&["missing", "manquant é", "missing words"]));
    add(&res, "/gazetteers", json!([w(rng)]));
    add(&res, "/word_clusters", json!([w(rng)]));
    add(&res, "/stems", w(rng));
    add(&res, "/stop_words", w(rng));
    if !spec.gazetteers.is_empty() {
        add(&res, "/gazetteers/-", w(rng));
    }
    if !spec.clusters.is_empty() {
        add(&res, "/word_clusters/-", w(rng));
    }
    for k in &spec.parsers {
        let d = Spec::parser_dir(*k);
        let f = format!("{}/intent_parser.json", d);
        add(&format!("{}/metadata.json", d), "/unit_name", unit(rng, &["crf_slot_filler", "log_reg_intent_classifier"]));
        match k {
            Kind::Det => {
                add(&f, "/language_code", lang(rng));
                let broken = *rng.pick(&["(", "^(?P<g>", "[a", "a{3,1}", "(?P<1>a)", "*a", "\\"]);
                add(&f, &format!("/patterns/{}/-", escape(&spec.intents[rng.below(spec.intents.len())].name)), json!(broken));
            }
            Kind::Lookup => {
                add(&f, "/language_code", lang(rng));
            }
            Kind::Prob => {
                let c = format!("{}/intent_classifier", d);
                add(&format!("{}/metadata.json", c), "/unit_name", unit(rng, &["crf_slot_filler", "lookup_intent_parser", "probabilistic_intent_parser"]));
                add(&format!("{}/intent_classifier.json", c), "/featurizer", missing(rng));
                if let Some(t) = &spec.classifier.tfidf {
                    let fz = format!("{}/featurizer/featurizer.json", c);
                    add(&fz, "/tfidf_vectorizer", missing(rng));
                    add(&fz, "/cooccurrence_vectorizer", missing(rng));
                    let tv = format!("{}/featurizer/tfidf_vectorizer/vectorizer.json", c);
                    add(&tv, "/language_code", lang(rng));
                    add(&tv, "/builtin_entity_scope/-", json!(*rng.pick(&["snips/unknown", "number", "", "snips/Number", "snips/"])));
                    add(&tv, "/config/word_clusters_name", w(rng));
                    if spec.stems.is_none() && !t.stemming {
                        add(&tv, "/config/use_stemming", json!(true));
                    }
                    if spec.classifier.cooc.is_some() {
                        let cv = format!("{}/featurizer/cooccurrence_vectorizer/vectorizer.json", c);
                        add(&cv, "/language_code", lang(rng));
                        add(&cv, "/builtin_entity_scope/-", json!(*rng.pick(&["snips/unknown", "number", ""])));
                    }
                }
                if !spec.fillers.is_empty() {
                    let n = rng.below(spec.fillers.len());
                    add(&f, &format!("/slot_fillers/{}/slot_filler_name", n), missing(rng));
                    let sf = format!("{}/slot_filler_{}/slot_filler.json", d, n);
                    add(&format!("{}/slot_filler_{}/metadata.json", d, n), "/unit_name", unit(rng, &["log_reg_intent_classifier", "lookup_intent_parser"]));
                    add(&sf, "/language_code", lang(rng));
                    add(&sf, "/config/tagging_scheme", json!(*rng.pick(&[3i64, 4, 7, 255, 256, 257, -1, 1 << 33])));
                    add(&sf, "/crf_model_file", missing(rng));
                    if spec.fillers[n].has_model {
                        let fac = "/config/feature_factory_configs/-";
                        add(&sf, fac, json!({"factory_name": *rng.pick(&["unknown", "", "Ngram", "is_digit ", "ngrams"]), "offsets": [0], "args": {}}));
                        add(&sf, fac, json!({"factory_name": "word_cluster", "offsets": [0], "args": {"cluster_name": w(rng), "use_stemming": false}}));
                        add(&sf, fac, json!({"factory_name": "ngram", "offsets": [0], "args": {"n": 1, "use_stemming": false, "language_code": "en", "common_words_gazetteer_name": w(rng)}}));
                    }
                }
            }
        }
    }
    v
}

/// Does one thing to a model which it is refused for.
pub fn damage(spec: &Spec, dir: &Path, rng: &mut Rng) {
    if rng.chance(40) {
        let (file, form) = rng.pick(&required(spec)).clone();
        let p = dir.join(file);
        if matches!(form, Form::Json) && rng.chance(60) {
            let broken = break_json(&fs::read(&p).unwrap(), rng);
            fs::write(&p, broken).unwrap();
        } else {
            fs::remove_file(&p).unwrap();
        }
    } else {
        let names = unknown_names(spec, rng);
        let (file, pointer, value) = rng.pick(&names).clone();
        let mut v = read_json(&dir.join(&file));
        set(&mut v, &pointer, value);
        write_json(&dir.join(&file), &v);
    }
}

fn escape(s: &str) -> String {
    s.replace('~', "~0").replace('/', "~1")
}

/// sets, or appends when the pointer ends with "/-"
pub fn set(v: &mut Value, pointer: &str, x: Value) -> bool {
    let (head, last) = pointer.rsplit_once('/').unwrap();
    let last = last.replace("~1", "/").replace("~0", "~");
    match v.pointer_mut(head) {
        Some(Value::Object(m)) => {
            m.insert(last, x);
            true
        }
        Some(Value::Array(a)) if last == "-" => {
            a.push(x);
            true
        }
        Some(Value::Array(a)) => match last.parse::<usize>() {
            Ok(i) if i < a.len() => {
                a[i] = x;
                true
            }
            _ => false,
        },
        _ => false,
    }
}

pub fn unset(v: &mut Value, pointer: &str) -> bool {
    let (head, last) = pointer.rsplit_once('/').unwrap();
    v.pointer_mut(head).and_then(|x| x.as_object_mut()).map_or(false, |m| m.remove(last).is_some())
}

pub fn read_json(p: &Path) -> Value {
    serde_json::from_slice(&fs::read(p).unwrap()).unwrap()
}

pub fn write_json(p: &Path, v: &Value) {
    fs::write(p, serde_json::to_vec(v).unwrap()).unwrap();
}

/// not well-formed JSON made of a well-formed one
pub fn break_json(bytes: &[u8], rng: &mut Rng) -> Vec<u8> {
    let end = bytes.iter().rposition(|b| !b.is_ascii_whitespace()).unwrap();
    for _ in 0..50 {
        let mut b = bytes.to_vec();
        match rng.below(5) {
            0 => b.truncate(rng.below(end + 1)),
            1 => b.truncate(rng.below(20.min(end + 1))),
            2 => b.extend_from_slice(*rng.pick(&[&b"}"[..], b"x", b"{}", b"\0", b",", b"]"])),
            3 => {
                // drop or double one structural character
                let at: Vec<usize> = (0..=end).filter(|i| b"{}[]:\"".contains(&b[*i])).collect();
                let i = *rng.pick(&at);
                if rng.chance(50) {
                    b.remove(i);
                } else {
                    let c = b[i];
                    b.insert(i, c);
                }
            }
            _ => b.insert(0, *rng.pick(b"x}],:")),
        }
        if serde_json::from_slice::<Value>(&b).is_err() {
            return b;
        }
    }
    vec![]
}

/// Loads the directory, and now and then an archive of it: both have to be refused.
fn refused(ctx: &mut Ctx, rng: &mut Rng, spec: &Spec, dir: &Path, what: &str) -> Option<String> {
    let detail = || json!({"world": brief(spec), "damage": what});
    let message = match guard(|| SnipsNluEngine::from_path(dir)) {
        Err(p) => {
            ctx.fail(format!("loading a damaged model panics: {}", p), detail());
            return None;
        }
        Ok(Ok(_)) => {
            ctx.fail(format!("a damaged model is accepted: {}", what), detail());
            return None;
        }
        Ok(Err(e)) => chain(&e),
    };
    if rng.chance(25) {
        let bytes = zip_of(&entries_of(dir, "engine", rng));
        ctx.count("damaged_archives");
        match from_zip(bytes) {
            Err(p) => {
                ctx.fail(format!("loading an archive of a damaged model panics: {}", p), detail());
                return None;
            }
            Ok(Ok(_)) => {
                ctx.fail(format!("an archive of a damaged model is accepted: {}", what), detail());
                return None;
            }
            Ok(Err(_)) => (),
        }
    }
    ctx.eval(Some(what.to_string()));
    Some(message)
}

fn agree(ctx: &mut Ctx, rng: &mut Rng, w: &World, other: &SnipsNluEngine, n: usize, what: &str) -> bool {
    for _ in 0..n {
        let text = any_text(w, rng, 15);
        let q = random_query(w, rng, text);
        let (a, b) = (ask(&w.engine, &q), ask(other, &q));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if !same(&a, &b) {
                    ctx.fail(format!("{} answers otherwise than the directory", what), about(&w.spec, &q, &(a, b)));
                    return false;
                }
                ctx.count("answers_compared");
            }
            (a, b) => {
                ctx.fail("panic", about(&w.spec, &q, &(a, b)));
                return false;
            }
        }
    }
    true
}

/// Gives other names to the files and directories that a model names itself; tells what was renamed.
pub fn rename_parts(dir: &Path, rng: &mut Rng) -> Vec<String> {
    let mut done = vec![];
    // renames the entries of `base` that the places in `file` name, or swaps their names
    let mut rename = |rng: &mut Rng, base: &Path, file: &Path, places: &[String], extension: &str| {
        if !file.is_file() {
            return;
        }
        let mut v = read_json(file);
        let old: Vec<String> = places.iter().filter_map(|p| v.pointer(p).and_then(|x| x.as_str()).map(|s| s.to_string())).collect();
        if old.len() != places.len() || old.is_empty() {
            return;
        }
        let mut new = old.clone();
        match rng.below(3) {
            0 if old.len() > 1 => {
                let k = rng.range(1, old.len() - 1);
                new.rotate_left(k)
            }
            0 => {}
            _ => {
                for n in new.iter_mut() {
                    if rng.chance(30) {
                        continue;
                    }
                    *n = format!("{}{}", n, rng.pick(&["_2", "é", " copy", "x", "_1_0", "\u{5f15}"]));
                }
            }
        }
        if new == old {
            return;
        }
        for o in &old {
            fs::rename(base.join(o.clone() + extension), base.join(format!("moving {}{}", o, extension))).unwrap();
        }
        for (k, (o, n)) in old.iter().zip(&new).enumerate() {
            fs::rename(base.join(format!("moving {}{}", o, extension)), base.join(n.clone() + extension)).unwrap();
            set(&mut v, &places[k], json!(n));
            if o != n {
                done.push(format!("{} as {}", o, n));
            }
        }
        write_json(file, &v);
    };
    let p = |s: &str| s.to_string();
    let top = dir.join("nlu_engine.json");
    rename(rng, dir, &top, &[p("/builtin_entity_parser"), p("/custom_entity_parser")], "");
    let n = read_json(&top)["intent_parsers"].as_array().map_or(0, |a| a.len());
    rename(rng, dir, &top, &(0..n).map(|k| format!("/intent_parsers/{}", k)).collect::<Vec<_>>(), "");
    let v = read_json(&top);
    let name = |v: &Value, k: &str| v[k].as_str().unwrap_or("").to_string();
    let custom = dir.join(name(&v, "custom_entity_parser"));
    rename(rng, &custom, &custom.join("metadata.json"), &[p("/parser_directory")], "");
    let resources = dir.join("resources").join(v["dataset_metadata"]["language_code"].as_str().unwrap_or(""));
    rename(rng, &resources, &resources.join("metadata.json"), &[p("/stop_words")], ".txt");
    rename(rng, &resources.join("stemming"), &resources.join("metadata.json"), &[p("/stems")], ".txt");
    for d in v["intent_parsers"].as_array().unwrap() {
        let d = dir.join(d.as_str().unwrap());
        let file = d.join("intent_parser.json");
        let n = read_json(&file)["slot_fillers"].as_array().map_or(0, |a| a.len());
        rename(rng, &d, &file, &(0..n).map(|k| format!("/slot_fillers/{}/slot_filler_name", k)).collect::<Vec<_>>(), "");
        for k in 0..n {
            let f = d.join(read_json(&file)["slot_fillers"][k]["slot_filler_name"].as_str().unwrap());
            rename(rng, &f, &f.join("slot_filler.json"), &[p("/crf_model_file")], "");
        }
        let c = d.join("intent_classifier");
        rename(rng, &c, &c.join("intent_classifier.json"), &[p("/featurizer")], "");
        if c.join("intent_classifier.json").is_file() {
            let fz = c.join(name(&read_json(&c.join("intent_classifier.json")), "featurizer"));
            let both = [p("/tfidf_vectorizer"), p("/cooccurrence_vectorizer")];
            rename(rng, &fz, &fz.join("featurizer.json"), &both, "");
            rename(rng, &fz, &fz.join("featurizer.json"), &both[..1], "");
        }
    }
    done
}

/// the same model with other names for its parts
fn renamed(ctx: &mut Ctx, rng: &mut Rng, w: &World) -> bool {
    let dir = ctx.odd_dir(rng, "renamed");
    w.spec.write(&dir);
    let done = rename_parts(&dir, rng);
    let path = spelled(rng, &dir);
    match guard(|| SnipsNluEngine::from_path(&path)) {
        Ok(Ok(e)) => {
            ctx.count("models_with_other_names");
            ctx.eval(Some(("renamed", done.clone())));
            agree(ctx, rng, w, &e, 4, &format!("an engine whose parts have other names ({:?})", done))
        }
        Ok(Err(e)) => {
            ctx.fail(format!("a sound model is refused with other names for its parts ({:?}): {}", done, chain(&e)), brief(&w.spec));
            false
        }
        Err(p) => {
            ctx.fail(format!("loading a sound model with other names for its parts ({:?}) panics: {}", done, p), brief(&w.spec));
            false
        }
    }
}

pub const TOPS: &[&str] = &["engine", "nlu_engine", "mon moteur", "moteur_é", "引擎", "engine.v1", "a"];

pub fn c15(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts::default()) {
        Some(w) => w,
        None => return,
    };
    let dir = w.dir.clone();
    // sound: an archive of the directory
    for _ in 0..2 {
        let top = *rng.pick(TOPS);
        match from_zip(zip_of(&entries_of(&dir, top, rng))) {
            Ok(Ok(e)) => {
                ctx.count("archives");
                if !agree(ctx, rng, &w, &e, 6, "an engine loaded from an archive") {
                    return;
                }
                ctx.eval(Some(("archive", hash_of(&format!("{:?}", w.spec)))));
            }
            Ok(Err(e)) => return ctx.fail(format!("an archive of a sound model is refused: {}", chain(&e)), brief(&w.spec)),
            Err(p) => return ctx.fail(format!("loading an archive of a sound model panics: {}", p), brief(&w.spec)),
        }
    }
    if !optional(ctx, rng, &w) || !renamed(ctx, rng, &w) {
        return;
    }
    let files = required(&w.spec);
    let keys = required_keys(&w.spec);
    for _ in 0..30 {
        let names = unknown_names(&w.spec, rng);
        // one file, from its path below the directory
        let keep = |f: &str| (dir.join(f), fs::read(dir.join(f)).unwrap());
        match rng.below(9) {
            0 => {
                let (p, data) = keep(&rng.pick(&files).0);
                fs::remove_file(&p).unwrap();
                let kind = rng.below(4);
                match kind {
                    0 => (),
                    1 => fs::create_dir(&p).unwrap(),
                    2 => std::os::unix::fs::symlink(&p, &p).unwrap(),
                    _ => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
                }
                let what = format!("{} {}", rel(&dir, &p), ["removed", "is a directory", "is a link to itself", "is a link to nothing"][kind]);
                ctx.count("missing");
                let ok = refused(ctx, rng, &w.spec, &dir, &what).is_some();
                match kind {
                    0 => (),
                    1 => fs::remove_dir(&p).unwrap(),
                    _ => fs::remove_file(&p).unwrap(),
                }
                fs::write(&p, data).unwrap();
                if !ok {
                    return;
                }
            }
            1 | 2 => {
                let json: Vec<&(String, Form)> = files.iter().filter(|f| f.1 == Form::Json).collect();
                let (p, data) = keep(&rng.pick(&json).0);
                let broken = break_json(&data, rng);
                fs::write(&p, &broken).unwrap();
                let what = format!("{} not well-formed: {} of {} bytes: {:?}", rel(&dir, &p), broken.len(), data.len(), String::from_utf8_lossy(&broken[..broken.len().min(60)]));
                ctx.count("malformed");
                let ok = refused(ctx, rng, &w.spec, &dir, &what).is_some();
                fs::write(&p, data).unwrap();
                if !ok {
                    return;
                }
            }
            3 => {
                let text: Vec<&(String, Form)> = files.iter().filter(|f| f.1 == Form::Text).collect();
                if text.is_empty() {
                    continue;
                }
                let (p, data) = keep(&rng.pick(&text).0);
                // not UTF-8
                let mut broken = data.clone();
                let at = match rng.below(3) {
                    0 => 0,
                    1 => broken.iter().position(|b| *b == b'\n').map_or(0, |i| i + 1),
                    _ => broken.iter().rposition(|b| *b == b'\n').unwrap_or(0),
                };
                let bad: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"a\x80b"]);
                broken.splice(at..at, bad.iter().cloned());
                if std::str::from_utf8(&broken).is_ok() {
                    continue;
                }
                fs::write(&p, &broken).unwrap();
                let what = format!("{} is not UTF-8", rel(&dir, &p));
                ctx.count("not_utf8");
                let ok = refused(ctx, rng, &w.spec, &dir, &what).is_some();
                fs::write(&p, data).unwrap();
                if !ok {
                    return;
                }
            }
            4 | 5 => {
                let (f, k) = rng.pick(&keys).clone();
                let (p, data) = keep(&f);
                let mut v = read_json(&p);
                let what = if rng.chance(50) {
                    if !unset(&mut v, k) {
                        continue;
                    }
                    format!("{} without {}", f, k)
                } else {
                    let wrong = match v.pointer(k) {
                        Some(Value::String(_)) | Some(Value::Bool(_)) => json!(*rng.pick(&[7, -1])),
                        Some(Value::Object(_)) | Some(Value::Array(_)) => rng.pick(&[json!("text"), json!(3), json!(true)]).clone(),
                        Some(Value::Number(_)) => rng.pick(&[json!("text"), json!([]), json!({}), Value::Null]).clone(),
                        _ => continue,
                    };
                    set(&mut v, k, wrong.clone());
                    format!("{} with {} for {}", f, wrong, k)
                };
                write_json(&p, &v);
                ctx.count("incomplete");
                let ok = refused(ctx, rng, &w.spec, &dir, &what).is_some();
                fs::write(&p, data).unwrap();
                if !ok {
                    return;
                }
            }
            6 | 7 => {
                let (f, k, x) = rng.pick(&names).clone();
                let (p, data) = keep(&f);
                let mut v = read_json(&p);
                if !set(&mut v, &k, x.clone()) {
                    continue;
                }
                write_json(&p, &v);
                ctx.count("unknown_names");
                let what = format!("{} with {} for {}", f, x, k);
                let ok = refused(ctx, rng, &w.spec, &dir, &what).is_some();
                fs::write(&p, data).unwrap();
                if !ok {
                    return;
                }
            }
            _ => {
                let p = dir.join("nlu_engine.json");
                let data = fs::read(&p).unwrap();
                let mut v = read_json(&p);
                let version = rng.pick(&["0.19.0", "0.20.1", "0.20", "", "0.20.0 ", " 0.20.0", "v0.20.0", "1.20.0", "0.20.0.0", "0.20.0-beta", "00.20.0", "0.2.0", "0.200.0"]).to_string();
                v["model_version"] = json!(version);
                // another format: nothing else of the file can be relied upon
                let other = rng.below(3);
                if other > 0 {
                    for k in ["/dataset_metadata", "/intent_parsers", "/builtin_entity_parser", "/custom_entity_parser", "/training_package_version"] {
                        if rng.chance(50) {
                            if other == 1 {
                                unset(&mut v, k);
                            } else {
                                set(&mut v, k, json!({"other": [1, 2]}));
                            }
                        }
                    }
                }
                write_json(&p, &v);
                let what = format!("model version {:?}", version);
                let m = refused(ctx, rng, &w.spec, &dir, &what);
                fs::write(&p, data).unwrap();
                ctx.count("versions");
                match m {
                    None => return,
                    Some(m) => {
                        if !m.contains(&version) || !m.contains(MODEL_VERSION) || !m.to_lowercase().contains("version") {
                            return ctx.fail(format!("a model of version {:?} is refused without naming both versions: {}", version, m), brief(&w.spec));
                        }
                    }
                }
            }
        }
    }
    // what was damaged was restored
    match guard(|| SnipsNluEngine::from_path(&dir)) {
        Ok(Ok(e)) => {
            agree(ctx, rng, &w, &e, 3, "a second engine");
        }
        r => ctx.fail(format!("the restored model does not load: {:?}", r.map(|r| r.err().map(|e| chain(&e)))), brief(&w.spec)),
    }
}

fn rel(dir: &Path, p: &Path) -> String {
    p.strip_prefix(dir).unwrap().to_string_lossy().to_string()
}

/// What is optional can be left out, and what a model may say in addition is not an error.
fn optional(ctx: &mut Ctx, rng: &mut Rng, w: &World) -> bool {
    let dir = &w.dir;
    let mut files: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut edit = |f: &str, change: &mut dyn FnMut(&mut Value)| {
        let p = dir.join(f);
        let mut v = read_json(&p);
        files.entry(p.clone()).or_insert_with(|| fs::read(&p).unwrap());
        change(&mut v);
        write_json(&p, &v);
    };
    // further keys, as the training package writes them: the answers stay the same
    let more = json!({"unit_name": "nlu_engine", "intent_parsers_configs": [{"x": 1}]});
    let mut all: Vec<String> = required(&w.spec).into_iter().filter(|f| f.1 == Form::Json && !f.0.ends_with("crfsuite")).map(|f| f.0).collect();
    all.retain(|f| !f.contains("entity_parser/"));
    for f in all {
        if rng.chance(40) {
            edit(&f, &mut |v| {
                let m: &mut Map<String, Value> = v.as_object_mut().unwrap();
                m.entry("config").or_insert(more.clone());
                m.insert("author".into(), json!("someone"));
                m.insert("t_".into(), json!(1701.0));
            });
        }
    }
    let mut same_answers = true;
    let mut left_out = vec![];
    for k in &w.spec.parsers {
        let d = Spec::parser_dir(*k);
        let f = format!("{}/intent_parser.json", d);
        match k {
            Kind::Det if rng.chance(30) => {
                edit(&f, &mut |v| {
                    unset(v, "/stop_words_whitelist");
                });
                same_answers &= w.spec.whitelist.is_empty();
                left_out.push("the exceptions to stop words of the deterministic parser");
            }
            Kind::Prob => {
                let c = format!("{}/intent_classifier", d);
                if rng.chance(30) {
                    edit(&format!("{}/intent_classifier.json", c), &mut |v| {
                        v["featurizer"] = Value::Null;
                    });
                    same_answers = false;
                    left_out.push("featurizer");
                }
                if rng.chance(30) {
                    edit(&format!("{}/intent_classifier.json", c), &mut |v| {
                        v["intercept"] = Value::Null;
                        v["coeffs"] = Value::Null;
                    });
                    same_answers = false;
                    left_out.push("coefficients");
                }
                if !w.spec.fillers.is_empty() && rng.chance(40) {
                    let n = rng.below(w.spec.fillers.len());
                    edit(&format!("{}/slot_filler_{}/slot_filler.json", d, n), &mut |v| {
                        v["crf_model_file"] = Value::Null;
                    });
                    same_answers = false;
                    left_out.push("tagger");
                }
                if rng.chance(20) && w.spec.classifier.cooc.is_some() && w.spec.classifier.tfidf.is_some() {
                    edit(&format!("{}/featurizer/featurizer.json", c), &mut |v| {
                        v["cooccurrence_vectorizer"] = Value::Null;
                    });
                    // the coefficients do not fit any more: only loading is looked at
                    same_answers = false;
                    left_out.push("cooccurrence vectorizer");
                }
            }
            _ => (),
        }
    }
    let r = guard(|| SnipsNluEngine::from_path(dir));
    let ok = match r {
        Ok(Ok(e)) => {
            ctx.count("optional_parts_left_out");
            ctx.eval(Some(("optional", left_out.clone())));
            !same_answers || agree(ctx, rng, w, &e, 3, "an engine with further keys in its files")
        }
        Ok(Err(e)) => {
            ctx.fail(format!("a sound model without {:?} is refused: {}", left_out, chain(&e)), brief(&w.spec));
            false
        }
        Err(p) => {
            ctx.fail(format!("loading a sound model without {:?} panics: {}", left_out, p), brief(&w.spec));
            false
        }
    };
    for (p, data) in files {
        fs::write(p, data).unwrap();
    }
    ok
}

// ---------------------------------------------------------------- C16

/// Events of the file system, watched with inotify.
struct Watch {
    fd: i32,
    names: BTreeMap<i32, PathBuf>,
}

#[derive(Debug)]
struct Seen {
    dir: PathBuf,
    name: String,
    mask: u32,
}

impl Watch {
    fn new(dirs: &[PathBuf]) -> Option<Watch> {
        unsafe {
            let fd = libc::inotify_init1(libc::IN_NONBLOCK | libc::IN_CLOEXEC);
            if fd < 0 {
                return None;
            }
            let mut names = BTreeMap::new();
            for d in dirs {
                use std::os::unix::ffi::OsStrExt;
                let p = std::ffi::CString::new(d.as_os_str().as_bytes()).unwrap();
                let mask = libc::IN_CREATE | libc::IN_MODIFY | libc::IN_DELETE | libc::IN_MOVED_FROM | libc::IN_MOVED_TO | libc::IN_DELETE_SELF | libc::IN_ATTRIB;
                let wd = libc::inotify_add_watch(fd, p.as_ptr(), mask);
                if wd >= 0 {
                    names.insert(wd, d.clone());
                }
            }
            Some(Watch { fd, names })
        }
    }
    fn drain(&self) -> Vec<Seen> {
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { libc::read(self.fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
            if n <= 0 {
                return out;
            }
            let mut at = 0usize;
            while at + 16 <= n as usize {
                let u = |o: usize| u32::from_ne_bytes([buf[at + o], buf[at + o + 1], buf[at + o + 2], buf[at + o + 3]]);
                let (wd, mask, len) = (u(0) as i32, u(4), u(12) as usize);
                let name = String::from_utf8_lossy(&buf[at + 16..at + 16 + len]).trim_end_matches('\0').to_string();
                at += 16 + len;
                out.push(Seen { dir: self.names.get(&wd).cloned().unwrap_or_default(), name, mask });
            }
        }
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.fd);
        }
    }
}

/// levels between the scratch root and the directory for temporary files
const DEEP: usize = 10;

/// A place of its own for temporary files, far enough below the scratch directory for
/// parent-directory steps to end inside it.
struct Arena {
    root: PathBuf,
    levels: Vec<PathBuf>,
    tmp: PathBuf,
    outside: PathBuf,
    old: Option<std::ffi::OsString>,
}

impl Arena {
    fn new(ctx: &Ctx) -> Arena {
        let root = ctx.fresh_dir("z");
        let mut levels = vec![root.clone()];
        let mut d = root.clone();
        for i in 0..DEEP {
            fs::write(d.join("canary"), format!("canary {}", i)).unwrap();
            fs::create_dir(d.join("canary_dir")).unwrap();
            fs::write(d.join("canary_dir").join("nlu_engine.json"), "{}").unwrap();
            d = d.join(format!("l{}", i));
            fs::create_dir(&d).unwrap();
            levels.push(d.clone());
        }
        let outside = root.join("outside");
        fs::create_dir(&outside).unwrap();
        fs::write(outside.join("canary"), "canary").unwrap();
        // others use the same place
        fs::create_dir(d.join("temp_dir_nlu_")).unwrap();
        fs::write(d.join("temp_dir_nlu_").join("canary"), "canary").unwrap();
        let old = std::env::var_os("TMPDIR");
        std::env::set_var("TMPDIR", &d);
        // what is extracted to a relative path shows as well
        std::env::set_current_dir(&outside).unwrap();
        Arena { tmp: d, root, levels, outside, old }
    }
    fn watched(&self) -> Vec<PathBuf> {
        let mut v = self.levels.clone();
        v.extend(self.levels.iter().map(|l| l.join("canary_dir")));
        v.push(self.outside.clone());
        v.push(self.tmp.join("temp_dir_nlu_"));
        v.retain(|p| p.is_dir());
        v
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        match &self.old {
            Some(o) => std::env::set_var("TMPDIR", o),
            None => std::env::remove_var("TMPDIR"),
        }
        let _ = std::env::set_current_dir(self.root.parent().unwrap());
        let _ = fs::remove_dir_all(&self.root);
    }
}

/// a name that tries to leave the directory it is extracted in, or to disturb the extraction
fn hostile_name(rng: &mut Rng, arena: &Arena, top: &str) -> Vec<u8> {
    let evil = rng.pick(&["canary", "evil", "canary_dir/nlu_engine.json", "nlu_engine.json", "canary_dir/evil", "temp_dir_nlu_/canary", "new_dir/evil"]).to_string();
    let up = rng.range(1, 8);
    let out = arena.outside.to_string_lossy().to_string();
    let s = match rng.below(18) {
        0 => format!("{}{}", "../".repeat(up), evil),
        1 => format!("{}/{}{}", top, "../".repeat(up), evil),
        2 => format!("{}{}", "..\\".repeat(up), evil.replace('/', "\\")),
        3 => format!("{}\\{}{}", top, "..\\".repeat(up), evil.replace('/', "\\")),
        4 => format!("{}/{}", out, evil),
        5 => format!("/{}/{}", out, evil),
        6 => format!("{}/{}", out.replace('/', "\\"), evil),
        7 => format!("./{}/./../{}{}", top, "../".repeat(up - 1), evil),
        8 => format!("{}/nlu_engine.json", top),
        9 => format!("{}/nlu_engine.json/below", top),
        10 => format!("{}/resources", top),
        11 => format!("{}\0/../{}", top, evil),
        12 => format!("{}/{}", top, "n".repeat(rng.range(200, 400))),
        13 => rng.pick(&["", ".", "..", "/", "\\", "//", "./", "../", "..\\", "\0", "...", " ", "a/..", "C:\\evil", "C:evil", "\\\\host\\share\\evil", "~/evil", "~root/evil", "con", "|evil", "$HOME/evil", "*"]).to_string(),
        14 => format!("{}/{}/", top, "../".repeat(up)),
        15 => format!("{}/{}", "d/".repeat(rng.range(1, 300)), evil),
        16 => format!("..{}/..{}../{}", '\u{2215}', '\u{ff0e}', evil),
        _ => format!("{}/{}{}/", "../".repeat(up), out, evil),
    };
    let mut b = s.into_bytes();
    if rng.chance(5) {
        b.push(0xff);
    }
    b
}

fn hostile_archive(rng: &mut Rng, arena: &Arena, w: &World) -> (Vec<u8>, &'static str) {
    let top = *rng.pick(TOPS);
    let mut entries = entries_of(&w.dir, top, rng);
    let kind = rng.below(9);
    let what = match kind {
        0 | 1 | 2 | 3 => {
            for _ in 0..rng.range(1, 4) {
                let name = hostile_name(rng, arena, top);
                let data: Vec<u8> = match rng.below(4) {
                    0 => vec![],
                    1 => b"evil".to_vec(),
                    2 => b"{\"model_version\": \"0.20.0\"}".to_vec(),
                    _ => arena.outside.join("canary").to_string_lossy().to_string().into_bytes(),
                };
                let mut e = ZEntry::new(name, data);
                e.mode = *rng.pick(&[0, 0o100644, 0o120777, 0o040755, 0o104777, 0o100000]);
                e.utf8 = rng.chance(80);
                e.deflate = rng.chance(30);
                e.bad_crc = rng.chance(8);
                let at = match rng.below(4) {
                    0 => 0,
                    1 => entries.len(),
                    _ => rng.below(entries.len() + 1),
                };
                if rng.chance(15) {
                    // a link followed by what would be written through it
                    let mut l = ZEntry::new(format!("{}/link", top), arena.outside.to_string_lossy().as_bytes());
                    l.mode = 0o120777;
                    entries.push(l);
                    entries.push(ZEntry::new(format!("{}/link/evil", top), "evil"));
                }
                entries.insert(at, e);
            }
            "hostile names"
        }
        4 => {
            // duplicates and clashes of files with directories
            for _ in 0..rng.range(1, 3) {
                let mut e = rng.pick(&entries).clone();
                match rng.below(5) {
                    0 => e.data = b"{".to_vec(),
                    1 => e.name.extend_from_slice(b"/below"),
                    2 => e.name.push(b'/'),
                    3 => {
                        let cut = e.name.iter().rposition(|b| *b == b'/').unwrap_or(0);
                        e.name.truncate(cut);
                    }
                    _ => e.bad_crc = true,
                }
                let at = rng.below(entries.len() + 1);
                entries.insert(at, e);
            }
            "clashes"
        }
        5 => {
            let mut b = zip_of(&entries);
            let n = rng.below(b.len() + 1);
            b.truncate(n);
            return (b, "cut short");
        }
        6 => {
            let mut b = zip_of(&entries);
            for _ in 0..rng.range(1, 6) {
                let i = if rng.chance(50) { b.len() - 1 - rng.below(b.len().min(2000)) } else { rng.below(b.len()) };
                b[i] = rng.next() as u8;
            }
            return (b, "altered bytes");
        }
        7 => {
            let b = match rng.below(6) {
                0 => vec![],
                1 => (0..rng.range(1, 500)).map(|_| rng.next() as u8).collect(),
                2 => zip_of(&[]),
                3 => zip_of(&[ZEntry::new(*rng.pick(&["", "/", "..", ".", "\\", "a", "a/", "../..", "nlu_engine.json"]), "x")]),
                4 => b"PK\x05\x06".iter().cloned().chain(std::iter::repeat(0xff).take(18)).collect(),
                _ => fs::read(w.dir.join("nlu_engine.json")).unwrap(),
            };
            return (b, "foreign data");
        }
        _ => {
            // no directory of its own, or more than one
            for e in entries.iter_mut() {
                let rest = e.name[top.len() + 1..].to_vec();
                e.name = match rng.below(20) {
                    0 => [b"other/".to_vec(), rest].concat(),
                    _ if kind == 8 && top.len() % 2 == 0 => rest,
                    _ => [top.as_bytes().to_vec(), b"/".to_vec(), rest].concat(),
                };
            }
            "several directories"
        }
    };
    (zip_of(&entries), what)
}

pub fn c16(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts::default()) {
        Some(w) => w,
        None => return,
    };
    let arena = Arena::new(ctx);
    let before = listing(&arena.root);
    for round in 0..12 {
        let (bytes, what) = match round {
            0 => (zip_of(&entries_of(&w.dir, *rng.pick(TOPS), rng)), "sound"),
            1 => {
                let top = *rng.pick(TOPS);
                let mut entries = entries_of(&w.dir, top, rng);
                if rng.chance(60) {
                    // the directory at the end is then not near the other files
                    entries.push(ZEntry::new(&format!("{}/readme", top), &(0..0x12000).map(|i| (b' ' + (i % 90) as u8) as char).collect::<String>()));
                }
                (zip_of(&entries), if rng.chance(30) { "slow reader" } else { "failing reader" })
            }
            _ => hostile_archive(rng, &arena, &w),
        };
        let detail = json!({"world": brief(&w.spec), "archive": what, "bytes": bytes.len(), "names": names_of(&bytes)});
        let watch = Watch::new(&arena.watched());
        let (r, fired) = match what {
            "slow reader" => {
                let r = from_rough_zip(bytes.clone(), *rng.pick(&[1000, 37, 4096]), 0..0);
                (r.0, r.1)
            }
            "failing reader" => {
                let piece = *rng.pick(&[1000, 100_000]);
                // at which call: as many as there are in a load that succeeds
                let calls = from_rough_zip(bytes.clone(), piece, 0..0).2;
                let at = rng.range(1, calls + 2);
                let r = from_rough_zip(bytes.clone(), piece, at..if rng.chance(50) { at + 1 } else { usize::max_value() });
                (r.0, r.1)
            }
            _ => (from_zip(bytes.clone()), false),
        };
        let events = watch.as_ref().map(|w| w.drain()).unwrap_or_default();
        ctx.add("file_system_events", events.len() as u64);
        let after = listing(&arena.root);
        if after != before {
            let a: Vec<&String> = after.iter().filter(|x| !before.contains(x)).map(|x| &x.0).take(5).collect();
            let b: Vec<&String> = before.iter().filter(|x| !after.contains(x)).map(|x| &x.0).take(5).collect();
            return ctx.fail(format!("loading an archive ({}) left {:?}, and {:?} is not what it was", what, a, b), detail);
        }
        // in the meantime, only one new directory came and went, in the place for temporary files
        let mut own: Vec<String> = vec![];
        for e in &events {
            let dir = e.mask & libc::IN_ISDIR != 0;
            if e.dir == arena.tmp && dir && e.mask & libc::IN_CREATE != 0 {
                own.push(e.name.clone());
            } else if !(e.dir == arena.tmp && dir && own.contains(&e.name)) {
                return ctx.fail(format!("loading an archive ({}) touched {:?} in {:?} (event {:x})", what, e.name, e.dir.strip_prefix(&arena.root), e.mask), detail);
            }
        }
        if own.len() > 1 {
            ctx.count("several_temporary_directories");
        }
        match r {
            Err(p) => return ctx.fail(format!("loading an archive ({}) panics: {}", what, p), detail),
            Ok(Ok(e)) => {
                ctx.count("loaded");
                // no directory left, and the engine works
                if fired {
                    return ctx.fail("an engine is loaded from a source that failed while it was read", detail);
                }
                if what == "sound" || what.ends_with("reader") {
                    if own.is_empty() {
                        ctx.count("no_temporary_directory_seen");
                    }
                    if !agree(ctx, rng, &w, &e, 4, "an engine loaded from an archive that is gone") {
                        return;
                    }
                } else {
                    let text = any_text(&w, rng, 0);
                    if let Err(p) = ask(&e, &Query::Intents { text }) {
                        if p.contains("/repo/") {
                            ctx.count("panics_of_altered_models");
                        }
                    }
                }
            }
            Ok(Err(e)) => {
                ctx.count("refused");
                if what == "sound" || what == "slow reader" || what == "failing reader" && !fired {
                    return ctx.fail(format!("an archive of a sound model is refused: {}", chain(&e)), detail);
                }
            }
        }
        ctx.count(what);
        if fired {
            ctx.count("failures_of_the_reader");
        }
        ctx.eval(Some((what, hash_of(&bytes))));
    }
    // several archives at the same time: each engine is that of its own archive
    if rng.chance(30) {
        let mut spec = w.spec.clone();
        for (i, intent) in spec.intents.iter().map(|i| i.name.clone()).collect::<Vec<_>>().into_iter().enumerate() {
            rename(&mut spec, &intent, &format!("Renamed{}", i));
        }
        let other = match world_of_named(ctx, spec) {
            Some(o) => o,
            None => return,
        };
        let top = *rng.pick(TOPS);
        let zips = [zip_of(&entries_of(&w.dir, top, rng)), zip_of(&entries_of(&other, top, rng))];
        let handles: Vec<_> = (0..4)
            .map(|i| {
                let z = zips[i % 2].clone();
                std::thread::spawn(move || from_zip(z).map(|r| r.map_err(|e| chain(&e))))
            })
            .collect();
        for (i, h) in handles.into_iter().enumerate() {
            match h.join() {
                Ok(Ok(Ok(e))) => {
                    let names = match ask(&e, &Query::Intents { text: "make".into() }) {
                        Ok(Answer::Intents(v)) => v,
                        _ => continue,
                    };
                    let renamed = names.iter().flat_map(|n| n.intent_name.iter()).any(|n| n.starts_with("Renamed"));
                    if renamed != (i % 2 == 1) {
                        return ctx.fail("two archives loaded at the same time are mixed up", brief(&w.spec));
                    }
                    ctx.count("loaded_at_the_same_time");
                }
                r => return ctx.fail(format!("an archive loaded at the same time as others: {:?}", r.map(|r| r.map(|r| r.err()))), brief(&w.spec)),
            }
        }
        let _ = fs::remove_dir_all(&other);
        if listing(&arena.root) != before {
            ctx.fail("archives loaded at the same time leave files", brief(&w.spec));
        }
    }
}

fn world_of_named(ctx: &Ctx, spec: Spec) -> Option<PathBuf> {
    let dir = ctx.fresh_dir("o");
    spec.write(&dir);
    Some(dir)
}

fn rename(spec: &mut Spec, from: &str, to: &str) {
    for i in spec.intents.iter_mut() {
        if i.name == from {
            i.name = to.to_string();
        }
    }
    for f in spec.fillers.iter_mut() {
        if f.intent == from {
            f.intent = to.to_string();
        }
    }
    for n in spec.classifier.intent_list.iter_mut() {
        if n.as_ref().map_or(false, |n| n == from) {
            *n = Some(to.to_string());
        }
    }
    if let Some(w) = spec.whitelist.remove(from) {
        spec.whitelist.insert(to.to_string(), w);
    }
}

/// the names in the central directory, for reports
fn names_of(b: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while i + 46 <= b.len() {
        if b[i..].starts_with(b"PK\x01\x02") {
            let n = b[i + 28] as usize | (b[i + 29] as usize) << 8;
            if i + 46 + n <= b.len() {
                v.push(String::from_utf8_lossy(&b[i + 46..i + 46 + n]).chars().take(80).collect());
            }
            i += 46 + n;
        } else {
            i += 1;
        }
    }
    v.truncate(60);
    v
}
