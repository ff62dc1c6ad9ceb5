//! Checks of the statistical components: logistic regression, features, tag decoding, sequence
//! probabilities, resources.
use crate::core::*;
use crate::engine_checks::*;
use crate::refm::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use snips_nlu_lib::{load_shared_resources, CRFSlotFiller, IntentClassifier, LogRegIntentClassifier, SharedResources, SlotFiller};
use snips_nlu_utils::string::{get_shape, hash_str_to_i32, normalize};
use snips_nlu_utils::token::{tokenize_light, Token};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A synthetic model on disk without the engine around it.
pub struct Parts {
    pub spec: Spec,
    pub dir: PathBuf,
    pub refm: Refm,
    pub res: Arc<SharedResources>,
}

impl Drop for Parts {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn parts_of(ctx: &Ctx, spec: Spec) -> Parts {
    let dir = ctx.fresh_dir("p");
    spec.write(&dir);
    let res = shared(&spec, &dir);
    let refm = Refm::new(&spec, &dir);
    Parts { spec, dir, refm, res }
}

fn statistical(rng: &mut Rng) -> Spec {
    let o = Opts { kinds: vec![Kind::Prob], max_intents: 5, ..Opts::default() };
    let mut s = Spec::generate(rng, &o);
    s.parsers = vec![Kind::Prob];
    s
}

fn classifier(p: &Parts) -> Result<LogRegIntentClassifier, String> {
    guard(|| LogRegIntentClassifier::from_path(p.dir.join("probabilistic_intent_parser").join("intent_classifier"), p.res.clone()))
        .map_err(|m| format!("panic: {}", m))?
        .map_err(|e| e.to_string())
}

fn rewrite_classifier(p: &Parts) {
    p.spec.write_classifier(&p.dir.join("probabilistic_intent_parser").join("intent_classifier"));
}

fn short_text(p: &Parts, rng: &mut Rng, hostile: usize, max: usize) -> String {
    for _ in 0..20 {
        let t = if rng.chance(hostile) { p.spec.hostile(rng) } else { p.spec.text(rng) };
        if tokens_of(&p.spec, &t).len() <= max {
            return t;
        }
    }
    "make some tea".to_string()
}

/// now and then a text far longer than an utterance
fn maybe_long(p: &Parts, rng: &mut Rng, percent: usize, most: usize, text: String) -> String {
    if !rng.chance(percent) {
        return text;
    }
    let target = rng.range(60, most);
    let mut out = text;
    let mut n = tokens_of(&p.spec, &out).len();
    while n < target {
        let more = short_text(p, rng, 10, 40);
        n += tokens_of(&p.spec, &more).len().max(1);
        out.push(' ');
        out.push_str(&more);
    }
    out
}

// ---------------------------------------------------------------------------------------------
// C05

fn sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}

/// a weight: moderate, tiny, huge, or zero
fn weight(rng: &mut Rng, mode: usize) -> f32 {
    let s = if rng.chance(50) { -1.0 } else { 1.0 };
    (s * match mode {
        0 => rng.f() * 2.0,
        1 => rng.f() * 20.0,
        2 => 10f64.powf(rng.f() * 10.0 - 5.0),
        3 => 10f64.powf(rng.f() * 60.0 - 30.0),
        _ => {
            if rng.chance(70) {
                0.0
            } else {
                rng.f()
            }
        }
    }) as f32
}

pub fn c05(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = statistical(rng);
    // any number of classes
    let n_classes = if rng.chance(30) { 2 } else if rng.chance(4) { rng.range(10, 60) } else { rng.range(2, 9) };
    let mut list: Vec<Option<String>> = (0..n_classes).map(|i| Some(format!("class {}", i))).collect();
    for (i, x) in spec.intents.iter().enumerate().take(n_classes) {
        list[i] = Some(x.name.clone());
    }
    if rng.chance(75) {
        *list.last_mut().unwrap() = None;
    }
    rng.shuffle(&mut list);
    for _ in 0..20 {
        spec.gen_classifier(rng);
        if spec.classifier.tfidf.is_some() {
            break;
        }
    }
    let tfidf = match &mut spec.classifier.tfidf {
        Some(t) => t,
        None => return,
    };
    if rng.chance(40) {
        let m = rng.below(3);
        tfidf.idf.iter_mut().for_each(|x| *x = weight(rng, m).abs() * if rng.chance(20) { -1.0 } else { 1.0 });
    }
    let n = tfidf.vocab.len() + spec.classifier.cooc.as_ref().map_or(0, |c| c.pairs.len());
    spec.classifier.intent_list = list.clone();
    let mode = rng.below(5);
    let rows = if n_classes == 2 && rng.chance(60) { 1 } else { n_classes };
    let intercept: Vec<f32> = (0..rows).map(|_| weight(rng, mode)).collect();
    let coeffs: Vec<Vec<f32>> = (0..rows).map(|_| (0..n).map(|_| weight(rng, mode)).collect()).collect();
    spec.classifier.intercept = Some(intercept.clone());
    spec.classifier.coeffs = Some(coeffs.clone());
    let p = parts_of(ctx, spec);
    let about = |text: &str| json!({"text": text, "intent_list": list, "intercept": intercept, "coeffs": coeffs, "tfidf": format!("{:?}", p.spec.classifier.tfidf), "cooc": format!("{:?}", p.spec.classifier.cooc)});
    let c = match classifier(&p) {
        Ok(c) => c,
        Err(e) => return ctx.fail(format!("a sound classifier is refused: {}", e), about("")),
    };
    for _ in 0..12 {
        let text = short_text(&p, rng, 30, 80);
        if text.is_empty() {
            continue;
        }
        let features: Vec<f64> = match guard(|| c.compute_features(&text)) {
            Ok(Ok(f)) => f.iter().map(|x| f64::from(*x)).collect(),
            other => return ctx.fail(format!("no features: {:?}", other.map(|r| r.is_ok())), about(&text)),
        };
        if features.len() != n {
            return ctx.fail(format!("{} features instead of {}", features.len(), n), about(&text));
        }
        let mut low = vec![];
        let mut high = vec![];
        let mut finite = true;
        for r in 0..rows {
            let terms: Vec<f64> = coeffs[r].iter().zip(&features).map(|(w, f)| f64::from(*w) * f).collect();
            let s = f64::from(intercept[r]) + terms.iter().sum::<f64>();
            let size = f64::from(intercept[r]).abs() + terms.iter().map(|t| t.abs()).sum::<f64>();
            finite &= size < 1e37;
            // single precision additions and products
            let e = size * (n as f64 + 4.0) * 1.2e-7;
            low.push(sigmoid(s - e) - 2e-6);
            high.push(sigmoid(s + e) + 2e-6);
        }
        if !finite {
            ctx.count("not_finite");
            continue;
        }
        let bounds: Vec<(f64, f64)> = if rows == 1 {
            vec![(1.0 - high[0] - 1e-6, 1.0 - low[0] + 1e-6), (low[0], high[0])]
        } else {
            low.into_iter().zip(high).collect()
        };
        let of = |name: &Option<String>| bounds[list.iter().position(|x| x == name).unwrap()];
        let ranking = match guard(|| c.get_intents(&text)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return ctx.fail(format!("no ranking: {}", e), about(&text)),
            Err(m) => return ctx.fail(format!("panic: {}", m), about(&text)),
        };
        if ranking.len() != list.len() || list.iter().any(|x| ranking.iter().filter(|r| r.intent_name == *x).count() != 1) {
            return ctx.fail("the ranking is not the intent list", about(&text));
        }
        for r in &ranking {
            let (l, h) = of(&r.intent_name);
            let s = f64::from(r.confidence_score);
            if !(s >= l && s <= h) {
                return ctx.fail(format!("{:?} has score {} instead of [{}, {}]", r.intent_name, s, l, h), about(&text));
            }
        }
        if ranking.windows(2).any(|w| w[0].confidence_score < w[1].confidence_score) {
            return ctx.fail("the ranking is not sorted", about(&text));
        }
        let narrow = bounds.iter().filter(|b| b.1 - b.0 < 1e-3).count();
        ctx.eval(if narrow > 0 && features.iter().any(|f| *f != 0.0) {
            Some((rows, n_classes, narrow, hash_of(&ranking.iter().map(|r| (r.confidence_score * 1e6) as i64).collect::<Vec<_>>())))
        } else {
            None
        });
        ctx.count(if rows == 1 { "binary" } else { "one_vs_rest" });
        ctx.add("precise_scores", narrow as u64);
        ctx.sample(|| json!({"text": text, "scores": ranking.iter().map(|r| json!([r.intent_name, r.confidence_score])).collect::<Vec<_>>()}));
        // a whitelist keeps the scores of the intents it allows
        let names: Vec<String> = list.iter().flatten().cloned().collect();
        let white = rng.subset(&names, 50);
        let w: Vec<&str> = white.iter().map(|s| &**s).collect();
        match guard(|| c.get_intent(&text, Some(&w))) {
            Ok(Ok(r)) => {
                let allowed: Vec<f32> = ranking
                    .iter()
                    .filter(|r| r.intent_name.as_ref().map_or(true, |n| white.contains(n)))
                    .map(|r| r.confidence_score)
                    .collect();
                let good = match (&r.intent_name, allowed.first()) {
                    (_, None) => r.intent_name.is_none(),
                    (Some(n), Some(best)) => white.contains(n) && close(r.confidence_score, *best),
                    (None, Some(best)) => list.contains(&None) && close(r.confidence_score, *best),
                };
                if !good {
                    return ctx.fail(format!("with the whitelist {:?}: {:?}, ranking {:?}", white, r, ranking), about(&text));
                }
                ctx.eval(Some(("white", white.len(), (r.confidence_score * 1e6) as i64)));
            }
            other => return ctx.fail(format!("with the whitelist {:?}: {:?}", white, other.map(|r| r.map_err(|e| e.to_string()))), about(&text)),
        }
    }
    // nothing to go by: the empty text, a classifier that was never fitted, a single intent
    let mut q = p;
    let good = q.spec.classifier.clone();
    let unfitted = rng.below(4);
    if unfitted > 0 {
        match unfitted {
            1 => q.spec.classifier.tfidf = None,
            2 => {
                q.spec.classifier.intercept = None;
                q.spec.classifier.coeffs = None;
            }
            _ => q.spec.classifier.intent_list.truncate(1),
        }
        rewrite_classifier(&q);
    }
    let text = if unfitted == 0 { String::new() } else { short_text(&q, rng, 10, 30) };
    let about_it = |text: &str| json!({"text": text, "classifier": format!("{:?}", q.spec.classifier)});
    let here = &q.spec.classifier.intent_list;
    let names: Vec<String> = list.iter().flatten().cloned().collect();
    let white = rng.subset(&names, 50);
    let w: Vec<&str> = white.iter().map(|s| &**s).collect();
    match classifier(&q) {
        Ok(c) => {
            match guard(|| c.get_intents(&text)) {
                Ok(Ok(r)) => {
                    let as_due = |n: &Option<String>, s: f32| if here.len() == 1 || n.is_none() { s == 1.0 } else { s == 0.0 };
                    if r.len() != here.len() || here.iter().any(|n| r.iter().filter(|x| x.intent_name == *n && as_due(n, x.confidence_score)).count() != 1) {
                        return ctx.fail(format!("with nothing to go by ({}): {:?}", unfitted, r), about_it(&text));
                    }
                }
                other => return ctx.fail(format!("with nothing to go by ({}): {:?}", unfitted, other.map(|r| r.map_err(|e| e.to_string()))), about_it(&text)),
            }
            match guard(|| c.get_intent(&text, Some(&w))) {
                Ok(Ok(r)) => {
                    let good = match &r.intent_name {
                        Some(n) => white.contains(n) && here.contains(&r.intent_name) && (here.len() == 1 || !here.contains(&None)),
                        None => here.len() > 1 || here[0].as_ref().map_or(true, |n| !white.contains(n)),
                    };
                    if !good {
                        return ctx.fail(format!("with nothing to go by ({}) and the whitelist {:?}: {:?}", unfitted, white, r), about_it(&text));
                    }
                }
                other => return ctx.fail(format!("with nothing to go by ({}) and a whitelist: {:?}", unfitted, other.map(|r| r.map_err(|e| e.to_string()))), about_it(&text)),
            }
            ctx.eval(Some(("nothing to go by", unfitted, here.len(), here.contains(&None), white.len())));
            ctx.count("nothing_to_go_by");
        }
        Err(e) => return ctx.fail(format!("with nothing to go by ({}): refused: {}", unfitted, e), about_it(&text)),
    }
    // sizes that do not fit
    for _ in 0..4 {
        q.spec.classifier = good.clone();
        let coeffs = q.spec.classifier.coeffs.as_mut().unwrap();
        let intercept = q.spec.classifier.intercept.as_mut().unwrap();
        let k = rng.below(6);
        match k {
            0 => coeffs.iter_mut().for_each(|r| r.push(0.5)),
            1 if n > 1 => coeffs.iter_mut().for_each(|r| {
                r.pop();
            }),
            2 => coeffs.push(vec![0.0; n]),
            3 => intercept.push(0.25),
            4 if n > 1 && rows > 1 => {
                let r = rng.below(rows);
                coeffs[r].pop();
            }
            5 if rows > 1 => {
                coeffs.pop();
            }
            _ => continue,
        }
        rewrite_classifier(&q);
        let text = short_text(&q, rng, 0, 30);
        match classifier(&q) {
            Err(e) if e.starts_with("panic") => return ctx.fail(format!("a matrix that does not fit ({}): {}", k, e), brief(&q.spec)),
            Err(_) => ctx.count("refused_at_load"),
            Ok(c) => match guard(|| c.get_intents(&text)) {
                Ok(Err(_)) => ctx.count("refused_at_use"),
                Ok(Ok(_)) if text.is_empty() => continue,
                Ok(Ok(r)) => return ctx.fail(format!("a matrix that does not fit ({}) gives {:?}", k, r), brief(&q.spec)),
                Err(m) => return ctx.fail(format!("a matrix that does not fit ({}): panic {}", k, m), brief(&q.spec)),
            },
        }
        ctx.eval(Some(("misfit", k, rows, n)));
    }
}

// ---------------------------------------------------------------------------------------------
// C10

/// a run of tokens that is one slot: first and last token, the names its tags give it
fn runs(scheme: u8, tags: &[String]) -> Vec<(usize, usize, BTreeSet<String>)> {
    let mark = |i: usize| tags[i].chars().next().unwrap();
    let mut out: Vec<(usize, usize, BTreeSet<String>)> = vec![];
    for i in 0..tags.len() {
        if tags[i] == "O" {
            continue;
        }
        let name: String = tags[i].chars().skip(2).collect();
        let follows = i > 0
            && tags[i - 1] != "O"
            && match scheme {
                0 => true,
                1 => mark(i) != 'B',
                _ => mark(i) != 'B' && mark(i) != 'U' && mark(i - 1) != 'L' && mark(i - 1) != 'U',
            };
        if follows {
            let last = out.last_mut().unwrap();
            last.1 = i;
            last.2.insert(name);
        } else {
            out.push((i, i, [name].iter().cloned().collect()));
        }
    }
    out
}

const ODD_SLOTS: &[&str] = &["O", "I-x", "B-", "L-L-", "color", "été", "日本", "U-O", "from city", "x"];

pub fn c10(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = statistical(rng);
    let mut slots: Vec<(String, String)> = vec![];
    let mut names = ODD_SLOTS.to_vec();
    rng.shuffle(&mut names);
    for n in names.iter().take(rng.range(1, 4)) {
        slots.push((n.to_string(), rng.pick(&spec.entities).name.clone()));
    }
    for f in &mut spec.fillers {
        f.slots = slots.clone();
        f.has_model = true;
        f.scheme = rng.below(3) as u8;
    }
    // long texts, for which most features take too much time
    let long = rng.chance(8);
    if long {
        for f in &mut spec.fillers {
            f.factories = vec![Factory { name: "is_first".into(), offsets: vec![0], args: Map::new() }];
        }
    }
    let p = parts_of(ctx, spec);
    let dir = p.dir.join("probabilistic_intent_parser");
    for (n, f) in p.spec.fillers.iter().enumerate() {
        let filler = match guard(|| CRFSlotFiller::from_path(dir.join(format!("slot_filler_{}", n)), p.res.clone())) {
            Ok(Ok(f)) => f,
            Ok(Err(e)) => return ctx.fail(format!("a sound slot filler is refused: {}", e), brief(&p.spec)),
            Err(m) => return ctx.fail(format!("panic: {}", m), brief(&p.spec)),
        };
        for _ in 0..25 {
            let text = short_text(&p, rng, 40, 40);
            let text = maybe_long(&p, rng, if long { 20 } else { 0 }, 700, text);
            let tokens = tokens_of(&p.spec, &text);
            if tokens.len() > 256 {
                ctx.count("beyond_256_tokens");
            }
            let names: Vec<String> = f.slots.iter().map(|s| s.0.clone()).collect();
            let marks: &[&str] = match f.scheme {
                0 => &["I-"],
                1 => &["B-", "I-"],
                _ => &["B-", "I-", "L-", "U-"],
            };
            let outside = rng.range(10, 70);
            let foreign = rng.chance(10);
            // encoded slots, or any sequence
            let encoded = rng.chance(40);
            let mut expected: Vec<(usize, usize, String)> = vec![];
            let tags: Vec<String> = if encoded {
                let mut tags = vec!["O".to_string(); tokens.len()];
                let mut i = 0;
                while i < tokens.len() {
                    if rng.chance(outside) {
                        i += 1;
                        continue;
                    }
                    let end = (i + rng.range(1, 4)).min(tokens.len());
                    let name = rng.pick(&names).clone();
                    for k in i..end {
                        let m = match f.scheme {
                            0 => "I-",
                            1 => if k == i { "B-" } else { "I-" },
                            _ => {
                                if end - i == 1 {
                                    "U-"
                                } else if k == i {
                                    "B-"
                                } else if k + 1 == end {
                                    "L-"
                                } else {
                                    "I-"
                                }
                            }
                        };
                        tags[k] = format!("{}{}", m, name);
                    }
                    expected.push((i, end - 1, name));
                    // two slots in a row cannot be told apart without marks
                    i = if f.scheme == 0 { end + 1 } else { end };
                }
                tags
            } else {
                let mut names = names.clone();
                if foreign {
                    names.push("nobody".to_string());
                }
                // same name mostly, so that runs are long
                let main = rng.pick(&names).clone();
                let mixed = rng.range(0, 60);
                (0..tokens.len())
                    .map(|_| {
                        if rng.chance(outside) {
                            "O".to_string()
                        } else {
                            format!("{}{}", rng.pick(marks), if rng.chance(mixed) { rng.pick(&names) } else { &main })
                        }
                    })
                    .collect()
            };
            let about = || json!({"text": text, "scheme": f.scheme, "tags": tags, "slots": f.slots, "lang": p.spec.lang});
            vmon::script_tags(Some(tags.clone()));
            let got = guard(|| filler.get_slots(&text));
            vmon::script_tags(None);
            let runs = runs(f.scheme, &tags);
            let known = |n: &String| names.contains(n);
            let must_fail = runs.iter().any(|r| !r.2.iter().any(known));
            let may_fail = runs.iter().any(|r| !r.2.iter().all(known));
            match got {
                Err(m) => return ctx.fail(format!("panic: {}", m), about()),
                Ok(Err(e)) => {
                    if !may_fail {
                        return ctx.fail(format!("well-named tags are refused: {}", e), about());
                    }
                    ctx.eval(Some(("refused", f.scheme, tags)));
                }
                Ok(Ok(slots)) => {
                    if must_fail {
                        return ctx.fail("a tag naming a slot the intent does not have is accepted", about());
                    }
                    let ok = slots.len() == runs.len()
                        && slots.iter().zip(&runs).all(|(s, r)| {
                            let range = tokens[r.0].char_range.start..tokens[r.1].char_range.end;
                            r.2.contains(&s.slot_name)
                                && s.char_range == range
                                && s.value == sub(&text, &range)
                                && f.slots.iter().any(|(n, e)| *n == s.slot_name && *e == s.entity)
                        });
                    if !ok {
                        return ctx.fail(
                            format!("slots {:?}, expected the runs {:?}", slots.iter().map(|s| (&s.slot_name, &s.char_range, &s.value)).collect::<Vec<_>>(), runs),
                            about(),
                        );
                    }
                    if encoded {
                        let same = slots.len() == expected.len()
                            && slots.iter().zip(&expected).all(|(s, e)| {
                                s.slot_name == e.2 && s.char_range == (tokens[e.0].char_range.start..tokens[e.1].char_range.end)
                            });
                        if !same {
                            return ctx.fail("decoding does not give back the encoded slots", about());
                        }
                        ctx.count("round_trips");
                    }
                    ctx.add("slots_decoded", slots.len() as u64);
                    ctx.count(["io", "bio", "bilou"][f.scheme as usize]);
                    ctx.eval(if slots.is_empty() { None } else { Some(("ok", f.scheme, tags.clone())) });
                    ctx.sample(|| json!({"text": text, "tags": tags, "slots": slots.iter().map(|s| json!([s.slot_name, s.value])).collect::<Vec<_>>()}));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C11

fn overlaps(a: &std::ops::Range<usize>, b: &std::ops::Range<usize>) -> bool {
    a.start < b.end && b.start < a.end
}

fn prefix_of(scheme: u64, i: usize, covered: &[usize]) -> &'static str {
    match scheme {
        0 => "I-",
        1 => if covered[0] == i { "B-" } else { "I-" },
        _ => {
            if covered.len() == 1 {
                "U-"
            } else if covered[0] == i {
                "B-"
            } else if *covered.last().unwrap() == i {
                "L-"
            } else {
                "I-"
            }
        }
    }
}

/// The features a factory defines: label, and for each token the acceptable values (none: absent).
fn features_of(p: &Parts, f: &Factory, text: &str, tokens: &[Token]) -> Vec<(String, Vec<Vec<String>>)> {
    let n = |k: &str| f.args[k].as_u64().unwrap() as usize;
    let norm: Vec<String> = tokens.iter().map(|t| normalize(&t.value)).collect();
    let stemmed = |on: bool| -> Vec<String> {
        norm.iter().map(|w| if on { stem_word(p.spec.stems.as_ref().unwrap(), w) } else { w.clone() }).collect()
    };
    let one = |label: String, v: Vec<Option<String>>| vec![(label, v.into_iter().map(|x| x.into_iter().collect()).collect::<Vec<Vec<String>>>())];
    let each = |g: &dyn Fn(usize) -> Option<String>| (0..tokens.len()).map(|i| g(i)).collect::<Vec<Option<String>>>();
    match &*f.name {
        "is_digit" => one(
            "is_digit".into(),
            each(&|i| if tokens[i].value.bytes().all(|b| b >= b'0' && b <= b'9') { Some("1".into()) } else { None }),
        ),
        "length" => one("length".into(), each(&|i| Some((tokens[i].char_range.end - tokens[i].char_range.start).to_string()))),
        "is_first" => one("is_first".into(), each(&|i| if i == 0 { Some("1".into()) } else { None })),
        "is_last" => one("is_last".into(), each(&|i| if i + 1 == tokens.len() { Some("1".into()) } else { None })),
        "ngram" => {
            let size = n("n");
            let words = stemmed(f.args["use_stemming"].as_bool().unwrap());
            let common = f.args["common_words_gazetteer_name"].as_str().map(|g| p.spec.gazetteers.iter().find(|x| x.0 == g).unwrap().1.clone());
            let words: Vec<String> = words
                .into_iter()
                .map(|w| match &common {
                    Some(c) if !c.contains(&w) => "rare_word".to_string(),
                    _ => w,
                })
                .collect();
            one(
                format!("ngram_{}", size),
                each(&|i| if i + size <= tokens.len() { Some(words[i..i + size].join(" ")) } else { None }),
            )
        }
        "shape_ngram" => {
            let size = n("n");
            one(
                format!("shape_ngram_{}", size),
                each(&|i| {
                    if i + size <= tokens.len() {
                        Some(tokens[i..i + size].iter().map(|t| get_shape(&t.value)).collect::<Vec<_>>().join(" "))
                    } else {
                        None
                    }
                }),
            )
        }
        "prefix" | "suffix" => {
            let size = n(&format!("{}_size", f.name));
            one(
                format!("{}_{}", f.name, size),
                each(&|i| {
                    let c: Vec<char> = norm[i].chars().collect();
                    if c.len() < size {
                        None
                    } else if f.name == "prefix" {
                        Some(c[..size].iter().collect())
                    } else {
                        Some(c[c.len() - size..].iter().collect())
                    }
                }),
            )
        }
        "word_cluster" => {
            let name = f.args["cluster_name"].as_str().unwrap();
            let rows = &p.spec.clusters.iter().find(|c| c.0 == name).unwrap().1;
            one(
                format!("word_cluster_{}", name),
                each(&|i| rows.iter().rev().find(|r| r.0 == tokens[i].value.to_lowercase()).map(|r| r.1.clone())),
            )
        }
        "entity_match" => {
            let scheme = f.args["tagging_scheme_code"].as_u64().unwrap();
            let words = stemmed(f.args["use_stemming"].as_bool().unwrap());
            let mut places = vec![];
            let mut at = 0;
            for w in &words {
                let e = at + w.chars().count();
                places.push(at..e);
                at = e + 1;
            }
            let joined = words.join(" ");
            f.args["entities"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| {
                    let e = e.as_str().unwrap().to_string();
                    let found: Vec<_> = p.refm.custom(&joined, Some(&[e.clone()]), 0).into_iter().map(|m| m.range).collect();
                    (format!("entity_match_{}", e), matches(&places, &found, scheme))
                })
                .collect()
        }
        "builtin_entity_match" => {
            let scheme = f.args["tagging_scheme_code"].as_u64().unwrap();
            // what the tokeniser ignores reads as blanks
            let mut chars: Vec<char> = vec![' '; tokens.last().unwrap().char_range.end];
            for t in tokens {
                for (k, c) in t.value.chars().enumerate() {
                    chars[t.char_range.start + k] = c;
                }
            }
            let blanked: String = chars.into_iter().collect();
            let _ = text;
            let places: Vec<_> = tokens.iter().map(|t| t.char_range.clone()).collect();
            f.args["entity_labels"]
                .as_array()
                .unwrap()
                .iter()
                .map(|k| {
                    let k = k.as_str().unwrap().to_string();
                    let found: Vec<_> = p.refm.builtin(&blanked, Some(&[k.clone()]), 0).into_iter().map(|m| m.range).collect();
                    (format!("builtin_entity_match_{}", k), matches(&places, &found, scheme))
                })
                .collect()
        }
        other => panic!("feature {}", other),
    }
}

fn matches(places: &[std::ops::Range<usize>], found: &[std::ops::Range<usize>], scheme: u64) -> Vec<Vec<String>> {
    (0..places.len())
        .map(|i| {
            found
                .iter()
                .filter(|r| overlaps(r, &places[i]))
                .map(|r| {
                    let covered: Vec<usize> = (0..places.len()).filter(|k| overlaps(r, &places[*k])).collect();
                    prefix_of(scheme, i, &covered).to_string()
                })
                .collect()
        })
        .collect()
}

pub fn c11(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = statistical(rng);
    let mut fillers = spec.fillers.clone();
    for f in &mut fillers {
        f.has_model = true;
        f.factories = spec.gen_factories(rng, true);
        if rng.chance(20) {
            let far = if rng.chance(30) { 40 } else { 6 };
            let o = rng.range(0, 2 * far) as i32 - far as i32;
            f.factories.iter_mut().for_each(|x| {
                if !x.offsets.contains(&o) {
                    x.offsets.push(o)
                }
            });
        }
    }
    spec.fillers = fillers;
    let p = parts_of(ctx, spec);
    let dir = p.dir.join("probabilistic_intent_parser");
    for (n, f) in p.spec.fillers.iter().enumerate() {
        let d = dir.join(format!("slot_filler_{}", n));
        let filler = match guard(|| CRFSlotFiller::from_path(&d, p.res.clone())) {
            Ok(Ok(f)) => f,
            Ok(Err(e)) => return ctx.fail(format!("a sound slot filler is refused: {}", e), brief(&p.spec)),
            Err(m) => return ctx.fail(format!("panic: {}", m), brief(&p.spec)),
        };
        for _ in 0..15 {
            let text = short_text(&p, rng, 40, 40);
            let text = maybe_long(&p, rng, (n == 0) as usize, 150, text);
            let tokens = tokens_of(&p.spec, &text);
            let about = || json!({"text": text, "lang": p.spec.lang, "factories": f.factories.iter().map(|x| json!([x.name, x.offsets, x.args])).collect::<Vec<_>>(), "stems": p.spec.stems, "gazetteers": p.spec.gazetteers, "clusters": p.spec.clusters, "entities": p.spec.entities.iter().map(|e| json!([e.name, e.values])).collect::<Vec<_>>()});
            // what reaches the tagger, and what is computed
            vmon::record(true);
            let slots = guard(|| filler.get_slots(&text));
            let log = vmon::take_log();
            vmon::record(false);
            if let Err(m) = slots {
                return ctx.fail(format!("panic: {}", m), about());
            }
            let got: Vec<Vec<(String, String)>> = match guard(|| filler.compute_features(&text)) {
                Ok(Ok(f)) => f,
                Ok(Err(e)) => return ctx.fail(format!("no features: {}", e), about()),
                Err(m) => return ctx.fail(format!("panic: {}", m), about()),
            };
            if got.len() != tokens.len() {
                return ctx.fail(format!("features of {} tokens instead of {}", got.len(), tokens.len()), about());
            }
            if tokens.is_empty() {
                ctx.eval(None::<u8>);
                continue;
            }
            let sent: Vec<&vmon::Event> = log.iter().filter(|e| e.site == "tag" && e.phase == "exit").collect();
            let mut in_order = got.clone();
            in_order.iter_mut().for_each(|token| token.sort());
            let in_order = format!("{:?}", in_order);
            if sent.is_empty() || sent.iter().any(|e| e.detail != in_order) {
                return ctx.fail("the tagger does not get the features of the text", about());
            }
            // labels and acceptable values per token
            let mut expected: Vec<BTreeMap<String, Vec<Vec<String>>>> = vec![BTreeMap::new(); tokens.len()];
            let vague = tokens.iter().any(|t| normalize(&t.value).is_empty());
            let mut total = 0;
            for x in &f.factories {
                if vague && x.name == "entity_match" {
                    continue;
                }
                for (label, values) in features_of(&p, x, &text, &tokens) {
                    for o in &x.offsets {
                        let key = match o {
                            0 => label.clone(),
                            o if *o > 0 => format!("{}[+{}]", label, o),
                            o => format!("{}[-{}]", label, -o),
                        };
                        for at in 0..tokens.len() as i64 {
                            let from = at + i64::from(*o);
                            if from >= 0 && from < tokens.len() as i64 && !values[from as usize].is_empty() {
                                expected[at as usize].entry(key.clone()).or_default().push(values[from as usize].clone());
                                total += 1;
                            }
                        }
                    }
                }
            }
            for i in 0..tokens.len() {
                let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
                for (k, v) in &got[i] {
                    if vague && k.starts_with("entity_match_") {
                        continue;
                    }
                    seen.entry(k.clone()).or_default().push(v.clone());
                }
                let same = seen.keys().eq(expected[i].keys())
                    && seen.iter().all(|(k, vs)| {
                        let want = &expected[i][k];
                        let mut used = vec![false; want.len()];
                        vs.len() == want.len()
                            && vs.iter().all(|v| match (0..want.len()).find(|j| !used[*j] && want[*j].contains(v)) {
                                Some(j) => {
                                    used[j] = true;
                                    true
                                }
                                None => false,
                            })
                    });
                if !same {
                    let diff: Vec<Value> = seen
                        .keys()
                        .chain(expected[i].keys())
                        .collect::<BTreeSet<_>>()
                        .into_iter()
                        .filter(|k| seen.get(*k).map(|v| v.len()) != expected[i].get(*k).map(|v| v.len()) || seen[*k].iter().any(|v| !expected[i][*k].iter().any(|w| w.contains(v))))
                        .map(|k| json!([k, seen.get(k), expected[i].get(k)]))
                        .collect();
                    return ctx.fail(format!("features of token {} ({:?}): {}", i, tokens[i].value, Value::Array(diff)), about());
                }
                for k in seen.keys() {
                    ctx.count(k.split(|c: char| c == '[').next().unwrap().split("_match").next().unwrap());
                }
            }
            ctx.eval(if total > 0 { Some(hash_of(&got)) } else { None });
            ctx.sample(|| json!({"text": text, "features": got.first()}));
        }
        // configurations that name what does not exist
        for _ in 0..6 {
            let mut bad = f.clone();
            let k = rng.below(bad.factories.len().max(1));
            if bad.factories.is_empty() {
                break;
            }
            let x = &mut bad.factories[k];
            let what = match (rng.below(4), &*x.name) {
                (0, _) => {
                    x.name = rng.pick(&["unknown", "", "Ngram", "ngrams", "is_Digit", "entity"]).to_string();
                    "unknown feature"
                }
                (1, "ngram") => {
                    x.args.insert("common_words_gazetteer_name".into(), json!("no such gazetteer"));
                    "unknown gazetteer"
                }
                (1, "word_cluster") => {
                    x.args.insert("cluster_name".into(), json!("no such clusters"));
                    "unknown clusters"
                }
                (1, "builtin_entity_match") => {
                    x.args.insert("entity_labels".into(), json!(["snips/number", "snips/unknown"]));
                    "unknown builtin entity"
                }
                (1, "ngram") | (1, "entity_match") | (2, "entity_match") | (2, "ngram") if p.spec.stems.is_none() => {
                    x.args.insert("use_stemming".into(), json!(true));
                    "missing stems"
                }
                (1, "entity_match") | (2, "builtin_entity_match") => {
                    x.args.insert("tagging_scheme_code".into(), json!(*rng.pick(&[3u64, 9, 255, 256, 257, 258, 1 << 40])));
                    "unknown tagging scheme"
                }
                (3, _) if !x.args.is_empty() => {
                    let keys: Vec<String> = x.args.keys().cloned().collect();
                    let key = rng.pick(&keys).clone();
                    if rng.chance(50) {
                        x.args.remove(&key);
                    } else if key == "common_words_gazetteer_name" {
                        continue;
                    } else {
                        x.args.insert(key, json!({"not": "this"}));
                    }
                    "missing or mistyped argument"
                }
                _ => continue,
            };
            p.spec.write_filler(&d, &bad);
            match guard(|| CRFSlotFiller::from_path(&d, p.res.clone()).map(|_| ())) {
                Ok(Err(_)) => ctx.eval(Some(("refused", what))),
                Ok(Ok(())) => return ctx.fail(format!("{} is accepted", what), json!({"factory": [bad.factories[k].name, bad.factories[k].args]})),
                Err(m) => return ctx.fail(format!("{}: panic {}", what, m), json!({"factory": [bad.factories[k].name, bad.factories[k].args]})),
            }
            ctx.count("refused_configurations");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C12

/// Expected tf-idf and co-occurrence features.
fn expected_vector(p: &Parts, text: &str) -> (Vec<f64>, Vec<f64>) {
    let ul = ulang(&p.spec.lang);
    let t = p.spec.classifier.tfidf.as_ref().unwrap();
    let tokens = tokenize_light(text, ul);
    let words: Vec<String> = tokens
        .iter()
        .map(|w| {
            let n = normalize(w);
            if t.stemming {
                stem_word(p.spec.stems.as_ref().unwrap(), &n)
            } else {
                n
            }
        })
        .collect();
    let mut all = words.clone();
    for e in p.refm.builtin(text, Some(&t.scope), 0) {
        all.push(format!("builtinentityfeature{}", tokenize_light(&e.entity_kind.identifier().to_lowercase(), ul).concat()));
    }
    for e in p.refm.custom(&words.join(" "), None, 0) {
        all.push(format!("entityfeature{}", tokenize_light(&e.entity_identifier.to_lowercase(), ul).concat()));
    }
    if let Some(c) = &t.clusters {
        let rows = &p.spec.clusters.iter().find(|x| x.0 == *c).unwrap().1;
        for i in 0..tokens.len() {
            for j in i + 1..=tokens.len() {
                let gram = tokens[i..j].join(" ").to_lowercase();
                if let Some(r) = rows.iter().rev().find(|r| r.0 == gram) {
                    all.push(r.1.clone());
                }
            }
        }
    }
    let mut v: Vec<f64> = t
        .vocab
        .iter()
        .zip(&t.idf)
        .map(|(w, idf)| all.iter().filter(|x| *x == w).count() as f64 * f64::from(*idf))
        .collect();
    let norm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if norm > 0.0 {
        v.iter_mut().for_each(|x| *x /= norm);
    }
    let mut co = vec![];
    if let Some(c) = &p.spec.classifier.cooc {
        let marker = |e: &str| tokenize_light(e, ul).concat().to_uppercase();
        let ents = dedup(&p.refm.entities(text, Some(&c.scope), None));
        let enriched = p.refm.replace(text, &ents, &marker);
        let kept: Vec<String> = tokenize_light(&enriched, ul)
            .into_iter()
            .filter(|w| !(c.filter_stop_words && p.spec.stop_words.contains(w)) && c.unknown.as_ref() != Some(w))
            .collect();
        co = vec![0.0; c.pairs.len()];
        for i in 0..kept.len() {
            for j in i + 1..kept.len() {
                if c.window.map_or(false, |w| j - i > w) {
                    break;
                }
                for (k, (a, b)) in c.pairs.iter().enumerate() {
                    if (*a == kept[i] && *b == kept[j]) || (!c.keep_order && *a == kept[j] && *b == kept[i]) {
                        co[k] = 1.0;
                    }
                }
            }
        }
    }
    (v, co)
}

pub fn c12(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = statistical(rng);
    for _ in 0..20 {
        spec.gen_classifier(rng);
        if spec.classifier.tfidf.is_some() {
            break;
        }
    }
    if spec.classifier.tfidf.is_none() {
        return;
    }
    let p = parts_of(ctx, spec);
    let c = match classifier(&p) {
        Ok(c) => c,
        Err(e) => return ctx.fail(format!("a sound classifier is refused: {}", e), brief(&p.spec)),
    };
    for _ in 0..25 {
        let mut text = short_text(&p, rng, 35, 60);
        // an expression of a cluster
        if rng.chance(25) && !p.spec.clusters.is_empty() {
            let c = rng.pick(&p.spec.clusters);
            let e = rng.pick(&c.1).0.clone();
            text = match rng.below(3) {
                0 => e,
                1 => format!("{} {}", e, text),
                _ => format!("{} {}", text, e),
            };
        }
        let about = || json!({"text": text, "lang": p.spec.lang, "tfidf": format!("{:?}", p.spec.classifier.tfidf), "cooc": format!("{:?}", p.spec.classifier.cooc),
            "stop_words": p.spec.stop_words, "stems": p.spec.stems, "clusters": p.spec.clusters, "entities": p.spec.entities.iter().map(|e| json!([e.name, e.values])).collect::<Vec<_>>()});
        let got: Vec<f64> = match guard(|| c.compute_features(&text)) {
            Ok(Ok(f)) => f.iter().map(|x| f64::from(*x)).collect(),
            Ok(Err(e)) => return ctx.fail(format!("no features: {}", e), about()),
            Err(m) => return ctx.fail(format!("panic: {}", m), about()),
        };
        let (tf, co) = expected_vector(&p, &text);
        if got.len() != tf.len() + co.len() {
            return ctx.fail(format!("{} features instead of {} + {}", got.len(), tf.len(), co.len()), about());
        }
        for (i, (g, e)) in got.iter().zip(tf.iter().chain(&co)).enumerate() {
            if !((g - e).abs() <= 1e-5) {
                let what = if i < tf.len() {
                    format!("word {:?}", p.spec.classifier.tfidf.as_ref().unwrap().vocab[i])
                } else {
                    format!("pair {:?}", p.spec.classifier.cooc.as_ref().unwrap().pairs[i - tf.len()])
                };
                return ctx.fail(format!("the feature of the {} is {} instead of {}", what, g, e), about());
            }
        }
        let (a, b) = (tf.iter().filter(|x| **x != 0.0).count(), co.iter().filter(|x| **x != 0.0).count());
        ctx.add("tfidf_non_zero", a as u64);
        ctx.add("pairs_marked", b as u64);
        if a == 0 {
            ctx.count("all_zero");
        }
        ctx.eval(if a + b > 0 { Some(hash_of(&got.iter().map(|x| (x * 1e5) as i64).collect::<Vec<_>>())) } else { None });
        ctx.sample(|| json!({"text": text, "non_zero": [a, b]}));
    }
}

// ---------------------------------------------------------------------------------------------
// C25

fn word(rng: &mut Rng, used: &BTreeSet<String>) -> String {
    for _ in 0..50 {
        let w: String = match rng.below(6) {
            0 => rng.pick(CARRIERS).to_string(),
            1 => rng.pick(VALUES).to_string(),
            2 => format!("{} {}", rng.pick(VALUES), rng.pick(CARRIERS)),
            3 => rng.pick(&["\"quoted\"", "\"half", "it's", "#hash", "a\"b", " lead", "trail ", "-", "--", "=1", "null", "été", "e\u{301}", "𝔸", "\\n", "a;b", "%X%"]).to_string(),
            4 => rng.below(100_000).to_string(),
            _ => (0..rng.range(1, 6)).map(|_| *rng.pick(&['a', 'b', 'é', '日', '"', '\'', '1', ' ', 'ß', 'Z'])).collect(),
        };
        // blank lines are not words
        if !w.trim().is_empty() && !used.contains(&w) {
            return w;
        }
    }
    format!("w{}", rng.next())
}

fn cluster_text(rng: &mut Rng, mode: usize) -> String {
    match mode {
        0 => rng.below(65_536).to_string(),
        1 => rng.pick(&["0", "65535", "65536", "7", "12345678901234567890", "70000"]).to_string(),
        2 => rng.pick(&["007", "+5", "-1", "1.0", "00", "10", "042", " 3", "4 "]).to_string(),
        3 => (0..rng.range(1, 12)).map(|_| if rng.chance(50) { '0' } else { '1' }).collect(),
        _ => rng.pick(&["cluster", "été", "\"q\"", "a b", "1111010111"]).to_string(),
    }
}

pub fn c25(ctx: &mut Ctx, rng: &mut Rng) {
    let spec = statistical(rng);
    let base = ctx.fresh_dir("r");
    spec.write(&base);
    let (b, c) = (base.join("builtin_entity_parser"), base.join("custom_entity_parser"));
    for _ in 0..6 {
        let dir = base.join("res");
        let _ = std::fs::remove_dir_all(&dir);
        for d in &["gazetteers", "stemming", "word_clusters"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let mut meta = json!({"language": spec.lang});
        let eol = |rng: &mut Rng| if rng.chance(70) { "\n" } else { "" };
        let lines = |rng: &mut Rng, v: &[String]| {
            let mut t = v.join("\n");
            if !v.is_empty() {
                t.push_str(eol(rng));
            }
            // empty lines count for nothing
            if rng.chance(30) {
                t = t.replacen('\n', "\n\n", 1);
            }
            // lines end the one way or the other
            if rng.chance(20) {
                t = t.replace('\n', "\r\n");
            }
            t
        };
        let large = rng.chance(1) && rng.chance(60);
        if large {
            ctx.count("large_files");
        }
        let set = |rng: &mut Rng| {
            let mut used = BTreeSet::new();
            // a few times files of many blocks
            let n = if large { rng.range(500, 4000) } else { rng.below(14) };
            for _ in 0..n {
                let w = word(rng, &used);
                used.insert(w);
            }
            let mut v: Vec<String> = used.into_iter().collect();
            rng.shuffle(&mut v);
            if rng.chance(20) && !v.is_empty() {
                let d = v[0].clone();
                v.push(d);
            }
            v
        };
        // gazetteers
        let mut gazetteers: Vec<(String, Vec<String>)> = vec![];
        for k in 0..rng.below(4) {
            let name = format!("{}_{}", rng.pick(&["top words", "été", "g"]), k);
            let v = set(rng);
            std::fs::write(dir.join("gazetteers").join(format!("{}.txt", name)), lines(rng, &v)).unwrap();
            gazetteers.push((name, v));
        }
        if !gazetteers.is_empty() || rng.chance(50) {
            meta["gazetteers"] = json!(gazetteers.iter().map(|g| &g.0).collect::<Vec<_>>());
        }
        // stop words
        let stop_words = if rng.chance(80) { Some(set(rng)) } else { None };
        if let Some(s) = &stop_words {
            meta["stop_words"] = json!("stop words");
            std::fs::write(dir.join("stop words.txt"), lines(rng, s)).unwrap();
        }
        // stems: of a form that is on several lines, the last one counts
        let mut stems: Vec<(String, Vec<String>)> = vec![];
        let mut used: Vec<String> = vec![];
        let with_stems = rng.chance(80);
        if with_stems {
            for _ in 0..if large { rng.range(300, 1500) } else { rng.below(10) } {
                let stem = word(rng, &BTreeSet::new()).replace(',', "").trim().to_string();
                let mut forms = vec![];
                for _ in 0..if rng.chance(2) { rng.range(20, 300) } else { rng.below(5) } {
                    let f = match rng.below(10) {
                        0 => normalize(&stem),
                        1 if !used.is_empty() => rng.pick(&used).clone(),
                        _ => normalize(&word(rng, &BTreeSet::new())).replace(',', ""),
                    };
                    if !f.is_empty() && normalize(&f) == f {
                        forms.push(f);
                    }
                }
                if !stem.is_empty() {
                    used.extend(forms.iter().cloned());
                }
                if !stem.is_empty() {
                    stems.push((stem, forms));
                }
            }
            meta["stems"] = json!("stems");
            let v: Vec<String> = stems.iter().map(|(s, f)| std::iter::once(s).chain(f).cloned().collect::<Vec<_>>().join(",")).collect();
            std::fs::write(dir.join("stemming").join("stems.txt"), lines(rng, &v)).unwrap();
        }
        // clusters
        let mut clusters: Vec<(String, Vec<(String, String)>)> = vec![];
        for k in 0..rng.below(4) {
            let name = format!("{}_{}", rng.pick(&["brown", "été clusters"]), k);
            let mode = rng.below(4);
            let mut used = BTreeSet::new();
            let mut rows = vec![];
            for _ in 0..if large { rng.range(300, 2000) } else { rng.below(14) } {
                let w = word(rng, &used);
                used.insert(w.clone());
                // mostly of one kind
                let m = if rng.chance(85) { mode } else { rng.below(5) };
                rows.push((w, cluster_text(rng, m)));
                // of a word that is on several lines, the last one counts
                if rng.chance(8) {
                    let (w, m) = (rows[rng.below(rows.len())].0.clone(), if rng.chance(60) { mode } else { 4 });
                    rows.push((w, cluster_text(rng, m)));
                }
            }
            let v: Vec<String> = rows.iter().map(|(a, b)| format!("{}\t{}", a, b)).collect();
            std::fs::write(dir.join("word_clusters").join(format!("{}.txt", name)), lines(rng, &v)).unwrap();
            clusters.push((name, rows));
        }
        if !clusters.is_empty() || rng.chance(50) {
            meta["word_clusters"] = json!(clusters.iter().map(|g| &g.0).collect::<Vec<_>>());
        }
        std::fs::write(dir.join("metadata.json"), meta.to_string()).unwrap();
        let about = || json!({"metadata": meta, "gazetteers": gazetteers, "stop_words": stop_words, "stems": stems, "clusters": clusters});
        let load = || guard(|| load_shared_resources(&dir, &b, &c).map_err(|e| e.to_string()));
        let res = match load() {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return ctx.fail(format!("sound resources are refused: {}", e), about()),
            Err(m) => return ctx.fail(format!("panic: {}", m), about()),
        };
        // words to ask about: listed ones, close ones, others
        let mut asked: BTreeSet<String> = BTreeSet::new();
        for w in gazetteers
            .iter()
            .flat_map(|g| g.1.iter())
            .chain(stop_words.iter().flatten())
            .chain(stems.iter().map(|s| &s.0))
            .chain(stems.iter().flat_map(|s| s.1.iter()))
            .chain(clusters.iter().flat_map(|c| c.1.iter().map(|r| &r.0)))
        {
            asked.insert(w.clone());
            match rng.below(6) {
                0 => asked.insert(w.to_uppercase()),
                1 => asked.insert(format!("{} ", w)),
                2 => asked.insert(w.trim_matches('"').to_string()),
                3 => asked.insert(w.chars().skip(1).collect()),
                4 => asked.insert(w.trim().to_string()),
                _ => asked.insert(w.to_lowercase()),
            };
        }
        for (_, rows) in &clusters {
            asked.extend(rows.iter().take(2).map(|r| r.1.clone()));
        }
        asked.insert(String::new());
        asked.insert("never listed".into());
        // These resources keep 32-bit hashes of the texts: a text that shares the hash of another
        // one that a resource lists is not asked of this resource
        let by_hash = |keys: &mut dyn Iterator<Item = &String>| {
            let mut m: HashMap<i32, (String, bool)> = HashMap::new();
            for k in keys {
                let e = m.entry(hash_str_to_i32(k)).or_insert_with(|| (k.clone(), false));
                e.1 |= e.0 != *k;
            }
            m
        };
        let shares = |m: &HashMap<i32, (String, bool)>, w: &String| m.get(&hash_str_to_i32(w)).map_or(false, |(k, many)| *many || k != w);
        let gazetteer_hashes: HashMap<&String, _> = gazetteers.iter().map(|(n, words)| (n, by_hash(&mut words.iter()))).collect();
        let stem_hashes = by_hash(&mut stems.iter().flat_map(|s| s.1.iter()));
        let cluster_hashes: Vec<_> = clusters.iter().map(|(_, rows)| by_hash(&mut rows.iter().map(|r| &r.0))).collect();
        if res.gazetteers.len() != gazetteers.len() || res.word_clusterers.len() != clusters.len() || res.stemmer.is_some() != with_stems {
            return ctx.fail("a resource is missing or in excess", about());
        }
        for w in &asked {
            for (n, words) in &gazetteers {
                let g = match res.gazetteers.get(n) {
                    Some(g) => g,
                    None => return ctx.fail(format!("no gazetteer {}", n), about()),
                };
                if shares(&gazetteer_hashes[n], w) {
                    ctx.count("skipped_equal_hash");
                    continue;
                }
                if g.contains(w) != words.contains(w) {
                    return ctx.fail(format!("gazetteer {}: {:?} is {} in it", n, w, if g.contains(w) { "wrongly" } else { "not" }), about());
                }
                ctx.eval(Some(("gazetteer", words.contains(w), w.clone())));
            }
            let listed = stop_words.iter().flatten().any(|s| s == w);
            if res.stop_words.contains(w) != listed {
                return ctx.fail(format!("stop word {:?}: {}", w, !listed), about());
            }
            ctx.eval(Some(("stop", listed, w.clone())));
            if let Some(s) = &res.stemmer {
                let got = s.stem(w);
                let n = normalize(w);
                let skipped = shares(&stem_hashes, &n);
                if skipped {
                    ctx.count("skipped_equal_hash");
                }
                match stems.iter().rev().find(|s| s.1.contains(&n)) {
                    _ if skipped => {}
                    Some((stem, _)) => {
                        if got != *stem {
                            return ctx.fail(format!("the stem of {:?} is {:?} instead of {:?}", w, got, stem), about());
                        }
                        ctx.count("stems_found");
                    }
                    None => {
                        if got != *w {
                            return ctx.fail(format!("the stem of the unlisted {:?} is {:?}", w, got), about());
                        }
                    }
                }
                ctx.eval(Some(("stem", got, w.clone())));
            }
            for ((n, rows), hashes) in clusters.iter().zip(&cluster_hashes) {
                if shares(hashes, w) {
                    ctx.count("skipped_equal_hash");
                    continue;
                }
                let got = match res.word_clusterers.get(n) {
                    Some(c) => c.get_cluster(w),
                    None => return ctx.fail(format!("no word clusters {}", n), about()),
                };
                let want = rows.iter().rev().find(|r| r.0 == *w).map(|r| r.1.clone());
                if got != want {
                    return ctx.fail(format!("the cluster of {:?} is {:?} instead of {:?}", w, got, want), about());
                }
                if want.is_some() {
                    ctx.count("clusters_found");
                }
                ctx.eval(Some(("cluster", want.is_some(), w.clone())));
            }
        }
        ctx.sample(|| json!({"asked": asked.len(), "metadata": meta}));
        // malformed files
        let mut files: Vec<(PathBuf, bool)> = gazetteers.iter().map(|g| (dir.join("gazetteers").join(format!("{}.txt", g.0)), false)).collect();
        files.extend(clusters.iter().map(|g| (dir.join("word_clusters").join(format!("{}.txt", g.0)), true)));
        if with_stems {
            files.push((dir.join("stemming").join("stems.txt"), false));
        }
        if stop_words.is_some() {
            files.push((dir.join("stop words.txt"), false));
        }
        if files.is_empty() {
            continue;
        }
        let (f, clustered) = rng.pick(&files).clone();
        let before = std::fs::read(&f).unwrap();
        let k = rng.below(4);
        match k {
            0 => std::fs::remove_file(&f).unwrap(),
            1 if !clustered || rng.chance(50) => {
                let mut bytes = before.clone();
                let at = rng.below(bytes.len() + 1);
                bytes.splice(at..at, [0xffu8, 0xfe].iter().cloned());
                std::fs::write(&f, bytes).unwrap()
            }
            2 => {
                std::fs::remove_file(&f).unwrap();
                std::fs::create_dir(&f).unwrap();
            }
            _ if clustered => {
                let mut rows: Vec<String> = String::from_utf8(before.clone()).unwrap().lines().filter(|l| !l.is_empty()).map(str::to_string).collect();
                let at = rng.below(rows.len() + 1);
                rows.insert(at, "no cluster here".into());
                std::fs::write(&f, rows.join("\n")).unwrap();
            }
            _ => {
                let whole = meta.to_string().into_bytes();
                std::fs::write(dir.join("metadata.json"), &whole[..rng.below(whole.len())]).unwrap();
            }
        }
        match load() {
            Ok(Err(_)) => ctx.count("malformed_refused"),
            Ok(Ok(_)) => return ctx.fail(format!("the malformed {} is accepted ({})", f.display(), k), about()),
            Err(m) => return ctx.fail(format!("the malformed {} ({}): panic {}", f.display(), k, m), about()),
        }
        ctx.eval(Some(("malformed", k, clustered)));
    }
    let _ = std::fs::remove_dir_all(&base);
}

// ---------------------------------------------------------------------------------------------
// C27

fn b64(s: &str) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in s.as_bytes().chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                out.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

fn tags_for(rng: &mut Rng, f: &Filler, n: usize) -> Vec<String> {
    let known = rng.range(30, 100);
    (0..n)
        .map(|_| {
            if rng.chance(known) && !f.labels.is_empty() {
                rng.pick(&f.labels).clone()
            } else {
                rng.pick(&["O", "B-unknown", "U-color", "L-x", "I-", "", "été", "o", "O "]).to_string()
            }
        })
        .collect()
}

fn reference_probability(path: &Path, f: &Filler, features: &[Vec<(String, String)>], tags: &[String]) -> Result<f64, String> {
    let tagger = crfsuite::Tagger::create_from_file(path).map_err(|e| e.to_string())?;
    tagger.set(features).map_err(|e| e.to_string())?;
    let other = if f.labels.iter().any(|l| l == "O") { "O".to_string() } else { f.labels[0].clone() };
    let clean: Vec<String> = tags.iter().map(|t| b64(if f.labels.contains(t) { t } else { &other })).collect();
    tagger.probability(&clean).map_err(|e| e.to_string())
}

pub fn c27(ctx: &mut Ctx, rng: &mut Rng) {
    let mut spec = statistical(rng);
    for f in &mut spec.fillers {
        if rng.chance(30) {
            f.labels.retain(|l| l != "O");
            f.state.retain(|s| s.1 != "O");
            f.trans.retain(|t| t.0 != "O" && t.1 != "O");
            if f.labels.is_empty() {
                f.labels.push("I-x".to_string());
            }
        }
    }
    let p = parts_of(ctx, spec);
    let dir = p.dir.join("probabilistic_intent_parser");
    for (n, f) in p.spec.fillers.iter().enumerate() {
        let d = dir.join(format!("slot_filler_{}", n));
        let filler = match guard(|| CRFSlotFiller::from_path(&d, p.res.clone())) {
            Ok(Ok(f)) => f,
            Ok(Err(e)) => return ctx.fail(format!("a sound slot filler is refused: {}", e), brief(&p.spec)),
            Err(m) => return ctx.fail(format!("panic: {}", m), brief(&p.spec)),
        };
        // questions and their answers
        let mut questions: Vec<(String, Vec<Token>, Vec<String>, f64)> = vec![];
        for _ in 0..12 {
            let text = short_text(&p, rng, 30, 30);
            let text = maybe_long(&p, rng, (n == 0) as usize, 150, text);
            let tokens = tokens_of(&p.spec, &text);
            if tokens.is_empty() && f.has_model {
                continue;
            }
            let tags = if rng.chance(20) { vec!["O".to_string(); tokens.len()] } else { tags_for(rng, f, tokens.len()) };
            let want = if f.has_model {
                let features = match guard(|| filler.compute_features(&text)) {
                    Ok(Ok(f)) => f,
                    _ => return ctx.fail("no features", json!(text)),
                };
                match reference_probability(&d.join("model.crfsuite"), f, &features, &tags) {
                    Ok(x) => x,
                    Err(e) => panic!("reference probability: {}", e),
                }
            } else if tags.iter().all(|t| t == "O") {
                1.0
            } else {
                0.0
            };
            questions.push((text, tokens, tags, want));
        }
        if questions.is_empty() {
            continue;
        }
        let ask = |q: &(String, Vec<Token>, Vec<String>, f64)| guard(|| filler.get_sequence_probability(&q.1, q.2.clone()).map_err(|e| e.to_string()));
        let wrong = |q: &(String, Vec<Token>, Vec<String>, f64), got: Result<Result<f64, String>, String>| match got {
            Ok(Ok(x)) if (x - q.3).abs() <= 1e-9 + 1e-6 * q.3 && x >= 0.0 && x <= 1.0 + 1e-9 => None,
            other => Some(format!("{:?} instead of {}", other, q.3)),
        };
        // any history: other probabilities, taggings, failures
        for _ in 0..40 {
            let q = rng.pick(&questions);
            match rng.below(8) {
                0 => {
                    let t = &rng.pick(&questions).0;
                    if let Err(m) = guard(|| filler.get_slots(t).map(|_| ())) {
                        return ctx.fail(format!("panic: {}", m), json!(t));
                    }
                }
                1 => {
                    vmon::fail_nth(Some(*rng.pick(&["set", "labels", "probability", "tag"])), 1);
                    let before = vmon::faults();
                    let got = ask(q);
                    let hit = vmon::faults() > before;
                    vmon::clear_faults();
                    if let Err(m) = &got {
                        return ctx.fail(format!("panic on a failing tagger: {}", m), json!(q.0));
                    }
                    if hit {
                        ctx.count("failing_calls");
                    }
                }
                _ => {}
            }
            let got = ask(q);
            if let Some(m) = wrong(q, got) {
                return ctx.fail(
                    format!("the probability is {}", m),
                    json!({"text": q.0, "tags": q.2, "labels": f.labels, "has_model": f.has_model, "scheme": f.scheme}),
                );
            }
            ctx.count(if f.has_model { "probabilities" } else { "without_slots" });
            ctx.eval(Some((q.0.clone(), q.2.clone(), f.has_model)));
            ctx.sample(|| json!({"text": q.0, "tags": q.2, "probability": q.3}));
        }
        // several threads on one tagger
        if f.has_model && rng.chance(50) {
            vmon::delays(rng.next() | 1);
            let failures: Vec<String> = std::thread::scope(|s| {
                let mut hs = vec![];
                for k in 0..4usize {
                    let (questions, ask, wrong, filler) = (&questions, &ask, &wrong, &filler);
                    let mut r = Rng(rng.next() ^ k as u64);
                    hs.push(s.spawn(move || {
                        for _ in 0..15 {
                            let q = r.pick(questions);
                            if r.chance(30) {
                                let _ = guard(|| filler.get_slots(&q.0).map(|_| ()));
                            }
                            if let Some(m) = wrong(q, ask(q)) {
                                return Some(format!("{}: {:?} {:?}", m, q.0, q.2));
                            }
                        }
                        None
                    }));
                }
                hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
            });
            vmon::delays(0);
            if let Some(m) = failures.first() {
                return ctx.fail(format!("among threads, the probability is {}", m), json!({"labels": f.labels}));
            }
            ctx.add("concurrent_probabilities", 60);
        }
    }
}
