//! Models whose files can each be read but do not fit together.
use crate::core::*;
use crate::engine_checks::*;
use crate::load_checks::{files_of_the_engine, read_json, write_json};
use crate::world::*;
use serde_json::{json, Map, Value};
use snips_nlu_lib::SnipsNluEngine;
use std::fs;

/// every text of the document, keys included
fn texts_of(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(s) => out.push(s.clone()),
        Value::Array(a) => a.iter().for_each(|x| texts_of(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            out.push(k.clone());
            texts_of(x, out)
        }),
        _ => {}
    }
}

fn other_text(rng: &mut Rng, s: &str, pool: &[String]) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => "unknown".to_string(),
        2 => s.to_uppercase(),
        3 => format!("{}é", s),
        4 => s.parse::<i64>().map(|n| (n.wrapping_add(*rng.pick(&[1, -1, 7, 1 << 33]))).to_string()).unwrap_or_else(|_| format!("{}_2", s)),
        _ => rng.pick(pool).clone(),
    }
}

/// Changes one value so that the file can still be read, most of the time; tells what was done.
fn change(v: &mut Value, rng: &mut Rng, pool: &[String], path: &str) -> Option<String> {
    let deeper = match v {
        Value::Array(a) => !a.is_empty() && rng.chance(70),
        Value::Object(m) => !m.is_empty() && (path.is_empty() || rng.chance(75)),
        _ => false,
    };
    if deeper {
        return match v {
            Value::Array(a) => {
                let i = rng.below(a.len());
                change(&mut a[i], rng, pool, &format!("{}/{}", path, i))
            }
            Value::Object(m) => {
                let k = rng.pick(&m.keys().cloned().collect::<Vec<_>>()).clone();
                change(m.get_mut(&k).unwrap(), rng, pool, &format!("{}/{}", path, k))
            }
            _ => None,
        };
    }
    let what = match v {
        Value::Null => return None,
        Value::Bool(b) => {
            *b = !*b;
            "flipped".to_string()
        }
        Value::Number(n) => {
            let x = if n.is_f64() {
                let f = n.as_f64().unwrap();
                json!(*rng.pick(&[0.0, -f, 1e39, -1e39, 3e38, -3e38, 1e-50, f * 1e30, f + 1.0]))
            } else {
                let i = n.as_i64().unwrap_or(0);
                let mut all = vec![0, 1, 2, 7, 1000, -1, i.wrapping_add(1), i.wrapping_sub(1), 1 << 62, i64::MAX, i64::MIN];
                if !path.contains("/vocab/") {
                    all.extend(&[i64::from(i32::MAX), i64::from(i32::MIN), i64::from(i32::MIN) + 1, 1 << 32, 1 << 31]);
                }
                if rng.chance(10) { json!(u64::MAX) } else { json!(*rng.pick(&all)) }
            };
            if x == *v {
                return None;
            }
            let t = format!("{} -> {}", v, x);
            *v = x;
            t
        }
        Value::String(s) => {
            let t = other_text(rng, s, pool);
            if t == *s {
                return None;
            }
            let d = format!("{:?} -> {:?}", s, t);
            *s = t;
            d
        }
        Value::Array(a) => {
            let n = a.len();
            if n == 0 {
                return None;
            }
            match rng.below(6) {
                0 => {
                    a.remove(rng.below(n));
                    "an element less".to_string()
                }
                1 => {
                    let x = a[rng.below(n)].clone();
                    a.push(x);
                    "an element twice".to_string()
                }
                2 => {
                    a.truncate(n / 2);
                    "cut in half".to_string()
                }
                3 => {
                    a.clear();
                    "emptied".to_string()
                }
                4 => {
                    let (i, j) = (rng.below(n), rng.below(n));
                    a[i] = a[j].clone();
                    "an element over another".to_string()
                }
                _ => {
                    rng.shuffle(a);
                    "shuffled".to_string()
                }
            }
        }
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() {
                return None;
            }
            let k = rng.pick(&keys).clone();
            match rng.below(5) {
                0 => {
                    m.remove(&k);
                    format!("without {:?}", k)
                }
                1 => {
                    let x = m.remove(&k).unwrap();
                    let t = other_text(rng, &k, pool);
                    let d = format!("{:?} renamed {:?}", k, t);
                    m.insert(t, x);
                    d
                }
                2 => {
                    let x = m[&k].clone();
                    let t = other_text(rng, &k, pool);
                    let d = format!("{:?} also {:?}", k, t);
                    m.insert(t, x);
                    d
                }
                3 => {
                    let x = m[rng.pick(&keys)].clone();
                    m.insert(k.clone(), x);
                    format!("{:?} set to another's", k)
                }
                _ => {
                    *m = Map::new();
                    "emptied".to_string()
                }
            }
        }
    };
    Some(format!("{}: {}", path, what))
}

/// Sizes and numbers one off, where two parts have to agree; tells what was done and which words reach the place.
fn one_off(v: &mut Value, rng: &mut Rng) -> Option<(String, Vec<String>)> {
    if let Some(n) = v.pointer("/vectorizer/idf_diag").and_then(|x| x.as_array()).map(|a| a.len()) {
        if n == 0 {
            return None;
        }
        let words: Vec<String> = v["vectorizer"]["vocab"].as_object()?.keys().cloned().collect();
        if words.is_empty() {
            return None;
        }
        let w = rng.pick(&words).clone();
        return Some(match rng.below(3) {
            0 => {
                v["vectorizer"]["vocab"][&w] = json!(n);
                ("a word numbered by the length of the diagonal".to_string(), vec![w])
            }
            1 => {
                v["vectorizer"]["idf_diag"].as_array_mut()?.pop();
                ("a shorter diagonal".to_string(), words)
            }
            _ => {
                v["vectorizer"]["vocab"][&w] = json!(n - 1);
                ("two words of one number".to_string(), words)
            }
        });
    }
    if let Some(n) = v.pointer("/word_pairs").and_then(|x| x.as_object()).map(|m| m.len()) {
        let m = v["word_pairs"].as_object_mut()?;
        let keys: Vec<String> = m.keys().cloned().collect();
        if keys.is_empty() {
            return None;
        }
        let k = rng.pick(&keys).clone();
        let x = m[&k].clone();
        let words: Vec<String> = m.values().flat_map(|p| { let mut t = vec![]; texts_of(p, &mut t); t }).collect();
        let what = match rng.below(3) {
            0 => {
                m.remove(&k);
                m.insert(n.to_string(), x);
                "a pair numbered by the number of pairs"
            }
            1 => {
                m.remove(&k);
                "a pair less"
            }
            _ => {
                m.insert(n.to_string(), x);
                "a pair twice"
            }
        };
        return Some((what.to_string(), words));
    }
    if v.get("coeffs").map_or(false, |c| c.is_array()) {
        let rows = v["coeffs"].as_array()?.len();
        if rows == 0 {
            return None;
        }
        let i = rng.below(rows);
        let what = match rng.below(8) {
            0 => {
                v["coeffs"][i].as_array_mut()?.pop();
                "a shorter row"
            }
            1 => {
                v["coeffs"][i].as_array_mut()?.push(json!(1.0));
                "a longer row"
            }
            2 => {
                v["coeffs"].as_array_mut()?.pop();
                "a row less"
            }
            3 => {
                let x = v["coeffs"][i].clone();
                v["coeffs"].as_array_mut()?.push(x);
                "a row more"
            }
            4 => {
                v["intercept"].as_array_mut()?.pop();
                "an intercept less"
            }
            5 => {
                v["intent_list"].as_array_mut()?.pop();
                "an intent less"
            }
            6 => {
                v["intent_list"].as_array_mut()?.push(Value::Null);
                "an intent more"
            }
            _ => {
                for r in v["coeffs"].as_array_mut()? {
                    r.as_array_mut()?.pop();
                }
                "a column less"
            }
        };
        return Some((what.to_string(), vec![]));
    }
    if v.get("map").map_or(false, |m| m.is_object()) {
        let (i, s) = (v["intents_names"].as_array()?.len(), v["slots_names"].as_array()?.len());
        let what = match rng.below(4) {
            0 => {
                v["intents_names"].as_array_mut()?.pop();
                "an intent name less"
            }
            1 => {
                v["slots_names"].as_array_mut()?.pop();
                "a slot name less"
            }
            k => {
                for e in v["map"].as_object_mut()?.values_mut() {
                    if !e.is_array() || e.as_array()?.len() < 2 {
                        continue;
                    }
                    if k == 2 {
                        e[0] = json!(i);
                    } else {
                        e[1].as_array_mut()?.iter_mut().for_each(|x| *x = json!(s));
                    }
                }
                "numbers past the end"
            }
        };
        return Some((what.to_string(), vec![]));
    }
    None
}

pub fn c29(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { ambivalent: *rng.pick(&[0, 0, 40]), ..Opts::default() };
    let mut w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    let mut texts: Vec<String> = (0..5).map(|_| any_text(&w, rng, 15)).filter(|t| fits(&w, t, 8)).collect();
    if texts.is_empty() {
        return;
    }
    let files = files_of_the_engine(&w.spec);
    let strange = if rng.chance(15) { Some(Spec::generate(rng, &o)) } else { None };
    let mut done: Vec<String> = vec![];
    let mut shape: Vec<String> = vec![];
    if let Some(s) = strange {
        // the same file of another model
        let dir = ctx.fresh_dir("other");
        s.write(&dir);
        let f = rng.pick(&files).clone();
        if dir.join(&f).is_file() {
            fs::copy(dir.join(&f), w.dir.join(&f)).unwrap();
            shape.push(f.clone());
            done.push(format!("{} of another model", f));
        }
    }
    for _ in 0..rng.range(1, 2) {
        // what only names things is refused on load nearly always
        let mut f = rng.pick(&files).clone();
        for _ in 0..2 {
            if f.ends_with("metadata.json") {
                f = rng.pick(&files).clone();
            }
        }
        let mut v = read_json(&w.dir.join(&f));
        if rng.chance(40) {
            if let Some((d, words)) = one_off(&mut v, rng) {
                write_json(&w.dir.join(&f), &v);
                shape.push(format!("{}:{}", f, d));
                done.push(format!("{}: {}", f, d));
                if !words.is_empty() {
                    let t: Vec<&str> = words.iter().take(40).map(|x| &x[..]).collect();
                    let t = t.join(" ");
                    if fits(&w, &t, 8) {
                        texts.push(t.clone());
                        texts.push(t);
                    }
                }
                continue;
            }
        }
        let mut pool = vec![];
        texts_of(&v, &mut pool);
        for i in &w.spec.intents {
            pool.push(i.name.clone());
            pool.extend(i.slots.iter().flat_map(|(a, b)| vec![a.clone(), b.clone()]));
        }
        if let Some(d) = change(&mut v, rng, &pool, "") {
            write_json(&w.dir.join(&f), &v);
            // names in the path vary from model to model
            shape.push(format!("{}:{}", f, d.split(|c: char| !c.is_alphabetic() && c != '/' && c != '_').next().unwrap_or("")));
            done.push(format!("{}{}", f, d));
        }
    }
    if done.is_empty() {
        return;
    }
    let detail = |w: &World, q: &str| json!({"world": brief(&w.spec), "changes": done, "query": q});
    match guard(|| SnipsNluEngine::from_path(&w.dir)) {
        Err(p) => return ctx.fail(format!("loading panics: {}", p), detail(&w, "")),
        Ok(Err(_)) => {
            ctx.count("models_refused");
            ctx.eval(None::<u8>);
            return;
        }
        Ok(Ok(e)) => w.engine = e,
    }
    ctx.count("models_loaded");
    let mut kinds = (0u64, 0u64);
    for _ in 0..12 {
        let q = {
            let t = rng.pick(&texts).clone();
            random_query(&w, rng, t)
        };
        match ask(&w.engine, &q) {
            Err(p) => return ctx.fail(format!("a query panics: {}", p), detail(&w, &format!("{:?}", q))),
            Ok(a) if a.is_error() => kinds.1 += 1,
            Ok(_) => kinds.0 += 1,
        }
    }
    ctx.add("answers", kinds.0);
    ctx.add("errors", kinds.1);
    ctx.eval(Some((&shape, kinds.1 > 0)));
    ctx.sample(|| json!({"changes": done, "answers": kinds.0, "errors": kinds.1}));
}
