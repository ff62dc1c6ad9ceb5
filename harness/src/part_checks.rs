//! Checks of the parts between the engine and the models: entity parsers, the probabilistic parser,
//! and the memory an engine holds.
use crate::alloc;
use crate::core::*;
use crate::engine_checks::*;
use crate::load_checks::{damage, entries_of, from_zip, read_json, rename_parts, zip_of};
use crate::model_checks::parts_of;
use crate::texts::random_case;
use crate::world::*;
use serde_json::json;
use snips_nlu_lib::injection::NluInjector;
use snips_nlu_lib::{CRFSlotFiller, IntentClassifier, IntentParser, LogRegIntentClassifier, ProbabilisticIntentParser, SlotFiller, SnipsNluEngine};
use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
use snips_nlu_parsers::GazetteerEntityMatch;
use std::path::Path;

// ---------------------------------------------------------------------------------------------
// C30

#[derive(Clone, Debug, PartialEq)]
enum Found {
    Custom(Vec<GazetteerEntityMatch<String>>),
    Builtin(Vec<BuiltinEntity>),
}

#[derive(Clone, Debug)]
struct Request {
    text: String,
    custom: bool,
    scope: Option<Vec<String>>,
    n: usize,
    cached: bool,
}

fn ordered(f: Found) -> Found {
    match f {
        Found::Custom(mut v) => {
            v.sort_by(|a, b| (a.range.start, a.range.end, &a.entity_identifier, &a.resolved_value).cmp(&(b.range.start, b.range.end, &b.entity_identifier, &b.resolved_value)));
            Found::Custom(v)
        }
        Found::Builtin(mut v) => {
            v.sort_by_key(|e| (e.range.start, e.range.end, e.entity_kind.identifier(), format!("{:?}", e.entity)));
            Found::Builtin(v)
        }
    }
}

/// values next to each other, with all that may stand between words
fn crowded(spec: &Spec, rng: &mut Rng) -> String {
    let mut out = String::new();
    let n = if rng.chance(4) { rng.range(20, 70) } else { rng.range(1, 5) };
    for _ in 0..n {
        let e = if rng.chance(60) && !spec.entities.is_empty() { rng.pick(&spec.entities).name.clone() } else { rng.pick(&spec.kinds()).clone() };
        let words = if rng.chance(75) { spec.random_value(rng, &e) } else { None };
        let words = words.unwrap_or_else(|| vec![spec.some_word(rng)]);
        for w in words {
            out += &random_case(rng, &w);
            out += *rng.pick(&[" ", " ", " ", "  ", ",", ", ", "-", "'", " ?", "!", "\t", "\u{a0}", " İ ", "İ", " 😀 ", "…", " e\u{301} ", "ẞ ", "\u{0}", "日"]);
        }
    }
    if rng.chance(20) {
        out = format!("{}{}", rng.pick(&["  ", "¿", "...", "İİ", "« ", "\n", "\u{301}"]), out);
    }
    out
}

pub fn c30(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { ambivalent: 30, all_value_kinds: rng.chance(30), grand: 10, ..Opts::default() };
    let spec = Spec::generate(rng, &o);
    let p = parts_of(ctx, spec);
    let customs: Vec<String> = p.spec.entities.iter().map(|e| e.name.clone()).collect();
    let kinds = p.spec.kinds();
    let mut requests: Vec<(Request, Found)> = vec![];
    let mut base: Vec<String> = vec![];
    for _ in 0..8 {
        base.push(match rng.below(4) {
            0 => p.spec.text(rng),
            1 => p.spec.hostile(rng),
            _ => crowded(&p.spec, rng),
        });
    }
    if rng.chance(50) {
        base.extend(p.spec.relatives(rng, &base));
    }
    for _ in 0..40 {
        let mut text = rng.pick(&base).clone();
        if rng.chance(20) {
            text = text.split(' ').map(|w| random_case(rng, w)).collect::<Vec<_>>().join(" ");
        }
        if tokens_of(&p.spec, &text).len() > 400 {
            continue;
        }
        let custom = rng.chance(60);
        let all = if custom { &customs } else { &kinds };
        let scope = match rng.below(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(all.clone()),
            _ => {
                let mut v = rng.subset(all, 50);
                rng.shuffle(&mut v);
                if custom && rng.chance(10) {
                    v.push("unknown".to_string());
                }
                if !v.is_empty() && rng.chance(10) {
                    v.push(v[0].clone());
                }
                Some(v)
            }
        };
        let mut r = Request { text, custom, scope, n: how_many(rng, 4), cached: custom || rng.chance(60) };
        if !requests.is_empty() && rng.chance(35) {
            // nearly the same as an earlier one
            r = rng.pick(&requests).0.clone();
            let all = if r.custom { &customs } else { &kinds };
            match (&mut r.scope, rng.below(5)) {
                (Some(v), 0) => drop(v.pop()),
                (Some(v), 1) => v.push(rng.pick(all).clone()),
                (Some(v), 2) if !v.is_empty() => *v.last_mut().unwrap() = rng.pick(all).clone(),
                (Some(v), 3) => v.reverse(),
                _ => r.n = how_many(rng, 4),
            }
        }
        let want = if r.custom {
            Found::Custom(p.refm.custom(&r.text, r.scope.as_ref().map(|s| &s[..]), r.n))
        } else {
            Found::Builtin(p.refm.builtin(&r.text, r.scope.as_ref().map(|s| &s[..]), r.n))
        };
        requests.push((r, ordered(want)));
    }
    if requests.is_empty() {
        return;
    }
    let res = &p.res;
    let ask = |r: &Request| {
        guard(|| {
            if r.custom {
                res.custom_entity_parser.extract_entities(&r.text, r.scope.as_ref().map(|s| &s[..]), r.n).map(Found::Custom)
            } else {
                let ks: Option<Vec<BuiltinEntityKind>> =
                    r.scope.as_ref().map(|ks| ks.iter().map(|k| BuiltinEntityKind::from_identifier(k).unwrap()).collect());
                res.builtin_entity_parser.extract_entities(&r.text, ks.as_ref().map(|k| &k[..]), r.cached, r.n).map(Found::Builtin)
            }
            .map_err(|e| e.to_string())
        })
    };
    let wrong = |got: Result<Result<Found, String>, String>, want: &Found| match got {
        Ok(Ok(f)) => {
            let f = ordered(f);
            if f == *want { None } else { Some(format!("the entities found differ from those that stand in the text: {:?} instead of {:?}", f, want)) }
        }
        Ok(Err(e)) => Some(format!("an error without any failure: {}", e)),
        Err(m) => Some(format!("panic: {}", m)),
    };
    // beyond the room of the caches
    let flood = rng.chance(3);
    for _ in 0..if flood { 4 } else { 1 } {
        for _ in 0..60 {
            let (r, want) = rng.pick(&requests).clone();
            if rng.chance(12) {
                vmon::fail_nth(Some(if r.custom { "custom" } else { "builtin" }), 1);
                let before = vmon::faults();
                let got = ask(&r);
                let hit = vmon::faults() > before;
                vmon::clear_faults();
                match got {
                    Err(m) => return ctx.fail(format!("panic on a failing parser: {}", m), json!({"world": brief(&p.spec), "request": format!("{:?}", r)})),
                    Ok(Ok(_)) if hit => {
                        return ctx.fail("the failure of a parser is not told", json!({"world": brief(&p.spec), "request": format!("{:?}", r)}))
                    }
                    Ok(Err(_)) => ctx.count("failing_calls"),
                    Ok(Ok(_)) => {}
                }
            }
            if let Some(m) = wrong(ask(&r), &want) {
                return ctx.fail(m, json!({"world": brief(&p.spec), "request": format!("{:?}", r)}));
            }
            let found = match &want {
                Found::Custom(v) => v.len(),
                Found::Builtin(v) => v.len(),
            };
            ctx.add("entities_found", found as u64);
            ctx.eval(if found > 0 { Some((&r.text, r.custom, &r.scope, r.n)) } else { None });
            ctx.sample(|| json!({"request": format!("{:?}", r), "found": format!("{:?}", want)}));
        }
        if flood {
            for k in 0..1100 {
                let mut r = rng.pick(&requests).0.clone();
                r.text = format!("word{} {}", k, r.text);
                let _ = ask(&r);
            }
            ctx.count("floods_of_the_caches");
        }
    }
    // several threads on the same parsers
    if rng.chance(25) {
        vmon::delays(rng.next() | 1);
        let failures: Vec<String> = std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..rng.range(2, 4) {
                let (requests, ask, wrong) = (&requests, &ask, &wrong);
                let mut r = Rng(rng.next());
                hs.push(s.spawn(move || {
                    for _ in 0..25 {
                        let (q, want) = r.pick(requests);
                        if let Some(m) = wrong(ask(q), want) {
                            return Some(format!("{} for {:?}", m, q));
                        }
                    }
                    None
                }));
            }
            hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
        });
        vmon::delays(0);
        ctx.count("runs_with_threads");
        if let Some(m) = failures.first() {
            return ctx.fail(format!("among threads, {}", m), brief(&p.spec));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C31

pub fn c31(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { kinds: vec![Kind::Prob], max_intents: 5, ..Opts::default() };
    let mut spec = Spec::generate(rng, &o);
    spec.parsers = vec![Kind::Prob];
    match rng.below(6) {
        0 => rng.shuffle(&mut spec.fillers),
        1 => {
            spec.fillers.remove(rng.below(spec.fillers.len()));
        }
        2 => spec.fillers.reverse(),
        3 => rng.shuffle(&mut spec.classifier.intent_list),
        _ => {}
    }
    let p = parts_of(ctx, spec);
    if rng.chance(60) {
        rename_parts(&p.dir, rng);
    }
    let top = read_json(&p.dir.join("nlu_engine.json"));
    let dir = p.dir.join(top["intent_parsers"][0].as_str().unwrap());
    let named = read_json(&dir.join("intent_parser.json"));
    let parser = sound(ProbabilisticIntentParser::from_path(&dir, p.res.clone()));
    // the parts are loaded apart, on resources of their own
    let own = shared(&p.spec, &p.dir);
    let classifier = sound(LogRegIntentClassifier::from_path(dir.join("intent_classifier"), own.clone()));
    let fillers: Vec<(String, CRFSlotFiller)> = p
        .spec
        .fillers
        .iter()
        .enumerate()
        .map(|(n, f)| (f.intent.clone(), sound(CRFSlotFiller::from_path(dir.join(named["slot_fillers"][n]["slot_filler_name"].as_str().unwrap()), own.clone()))))
        .collect();
    let slots_of = |text: &str, intent: &str| -> Result<Vec<String>, String> {
        match fillers.iter().find(|f| f.0 == intent) {
            Some(f) => f.1.get_slots(text).map(|v| v.iter().map(|s| format!("{:?}", s)).collect()).map_err(|e| e.to_string()),
            None => Err("no slot filler".to_string()),
        }
    };
    let mut texts: Vec<String> = (0..6)
        .map(|_| if rng.chance(20) { p.spec.hostile(rng) } else { p.spec.text(rng) })
        .filter(|t| tokens_of(&p.spec, t).len() <= 60)
        .collect();
    texts.push(String::new());
    let failing = rng.chance(20);
    if failing {
        let t = format!("boom {}", texts[0]);
        texts.push(t);
        vmon::fail_text(Some("boom"));
    }
    for _ in 0..40 {
        let text = rng.pick(&texts).clone();
        let detail = |got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| json!({"world": brief(&p.spec), "text": text, "got": format!("{:?}", got), "want": format!("{:?}", want)});
        match rng.below(4) {
            0 => {
                let want = classifier.get_intents(&text).map_err(|e| e.to_string());
                let got = match guard(|| parser.get_intents(&text).map_err(|e| e.to_string())) {
                    Ok(g) => g,
                    Err(m) => return ctx.fail(format!("panic: {}", m), detail(&"", &"")),
                };
                let ok = match (&got, &want) {
                    (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(x.confidence_score, y.confidence_score))
                        && b.iter().all(|y| a.iter().any(|x| x.intent_name == y.intent_name && close(x.confidence_score, y.confidence_score))),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !ok {
                    return ctx.fail("the ranking is not the classifier's", detail(&got, &want));
                }
                ctx.count("rankings");
            }
            1 => {
                let intent = if rng.chance(10) { "unknown intent".to_string() } else { rng.pick(&p.spec.intents).name.clone() };
                let want = slots_of(&text, &intent);
                let got = match guard(|| parser.get_slots(&text, &intent).map(|v| v.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>()).map_err(|e| e.to_string())) {
                    Ok(g) => g,
                    Err(m) => return ctx.fail(format!("panic: {}", m), detail(&"", &"")),
                };
                if got.is_ok() != want.is_ok() || got.is_ok() && got != want {
                    return ctx.fail(format!("the slots for {:?} are not its slot filler's", intent), detail(&got, &want));
                }
                ctx.count(if got.is_ok() { "slot_listings" } else { "slot_listings_refused" });
                ctx.eval(if got.map_or(true, |g| !g.is_empty()) { Some((&text, Some(intent))) } else { None });
            }
            _ => {
                let filter = random_filter(rng, &p.spec, true);
                let white = strs(&filter);
                let ranking = classifier.get_intents(&text).map_err(|e| e.to_string());
                let got = match guard(|| parser.parse(&text, white.as_ref().map(|w| &w[..])).map_err(|e| e.to_string())) {
                    Ok(g) => g,
                    Err(m) => return ctx.fail(format!("panic: {}", m), detail(&"", &"")),
                };
                let ranking = match ranking {
                    Err(e) => {
                        // a classifier that refuses everything lets nothing through
                        if got.is_ok() {
                            return ctx.fail("an answer although the classifier fails", detail(&got, &e));
                        }
                        ctx.count("failing_calls");
                        continue;
                    }
                    Ok(r) => r,
                };
                let mut rest: Vec<_> =
                    ranking.into_iter().filter(|r| r.intent_name.as_ref().map_or(true, |n| filter.as_ref().map_or(true, |f| f.contains(n)))).collect();
                if rest.is_empty() {
                    rest.push(snips_nlu_ontology::IntentClassifierResult { intent_name: None, confidence_score: 1.0 });
                }
                let best = rest.iter().map(|r| r.confidence_score).fold(0.0, f32::max);
                let tied: Vec<_> = rest.iter().filter(|r| r.confidence_score >= best - 1e-6).collect();
                let wants: Vec<(Option<String>, f32, Result<Vec<String>, String>)> = tied
                    .iter()
                    .map(|r| (r.intent_name.clone(), r.confidence_score, r.intent_name.as_ref().map_or(Ok(vec![]), |n| slots_of(&text, n))))
                    .collect();
                let ok = match &got {
                    Err(_) => wants.iter().any(|w| w.2.is_err()),
                    Ok(g) => {
                        let slots: Vec<String> = g.slots.iter().map(|s| format!("{:?}", s)).collect();
                        wants.iter().any(|w| w.0 == g.intent.intent_name && close(w.1, g.intent.confidence_score) && w.2.as_ref() == Ok(&slots))
                    }
                };
                if !ok {
                    return ctx.fail("the parse is not the best allowed intent with the slots of its slot filler", detail(&got.map(|g| (g.intent, g.slots)), &wants));
                }
                ctx.count("parses");
                if filter.is_some() {
                    ctx.count("parses_with_a_filter");
                }
                ctx.eval(match &got {
                    Ok(g) if g.intent.intent_name.is_some() => Some((&text, g.intent.intent_name.clone())),
                    _ => None,
                });
                ctx.sample(|| json!({"text": text, "filter": filter, "got": format!("{:?}", got.as_ref().map(|g| (&g.intent, &g.slots)))}));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C32

fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}

/// one whole life of an engine
fn life(dir: &Path, zip: &Option<Vec<u8>>, queries: &[Query]) -> Result<(u64, u64), String> {
    let engine = match zip {
        Some(z) => from_zip(z.clone())?.map_err(|e| format!("a sound archive is refused: {}", e))?,
        None => guard(|| SnipsNluEngine::from_path(dir))?.map_err(|e| format!("a sound model is refused: {}", e))?,
    };
    let mut n = (0, 0);
    for q in queries {
        if ask(&engine, q)?.is_error() {
            n.1 += 1;
        } else {
            n.0 += 1;
        }
    }
    Ok(n)
}

/// grows at every step, by at least `least` each time
fn grows(v: &[i64], least: i64) -> bool {
    v.windows(2).all(|p| p[1] - p[0] >= least)
}

pub fn c32(ctx: &mut Ctx, rng: &mut Rng) {
    let w = match world(ctx, rng, &Opts { max_intents: 3, grand: 0, ..Opts::default() }) {
        Some(w) => w,
        None => return,
    };
    let mut texts: Vec<String> = (0..8).map(|_| any_text(&w, rng, 15)).filter(|t| fits(&w, t, 5) && t.chars().count() < 80).collect();
    if rng.chance(20) {
        // long ones too
        for t in texts.iter_mut().take(1) {
            for _ in 0..rng.range(22, 36) {
                *t += " ";
                *t += rng.pick(CARRIERS);
            }
        }
        ctx.count("long_texts");
    }
    if texts.is_empty() {
        return;
    }
    vmon::fail_text(Some("boom"));
    if rng.chance(60) {
        // whole lives: load, ask, drop
        let mut queries = vec![];
        for _ in 0..12 {
            let mut t = rng.pick(&texts).clone();
            if rng.chance(20) {
                t += " boom";
            }
            queries.push(random_query(&w, rng, t));
        }
        let zip = if rng.chance(40) { Some(zip_of(&entries_of(&w.dir, "engine", rng))) } else { None };
        // models refused midway, which have nothing to leave behind either
        let broken: Vec<_> = (0..rng.range(1, 5))
            .map(|k| {
                let d = ctx.fresh_dir("broken");
                w.spec.write(&d);
                if k == 0 {
                    let _ = std::fs::remove_dir_all(d.join(Spec::parser_dir(*w.spec.parsers.last().unwrap())));
                } else {
                    damage(&w.spec, &d, rng);
                }
                d
            })
            .collect();
        let inject = if rng.chance(30) && !w.spec.entities.is_empty() { Some(rng.pick(&w.spec.entities).name.clone()) } else { None };
        let mut blocks = vec![];
        let mut fds = vec![];
        let mut threads = vec![];
        let mut n = (0, 0);
        // what a case of its own leaves is left out: the first two rounds
        let others = rng.chance(50);
        for round in 0..7 {
            if others {
                // a model never seen before, with a few questions of its own
                let d = ctx.fresh_dir("other");
                let s = Spec::generate(rng, &Opts { max_intents: 3, grand: 0, ..Opts::default() });
                s.write(&d);
                let mut qs = vec![];
                for _ in 0..6 {
                    let i = rng.below(s.intents.len());
                    let text = s.instance(rng, i, true).text;
                    if tokens_of(&s, &text).len() < 12 {
                        qs.push(Query::Parse { text: text.clone(), white: None, black: None, intents: 2, slots: 1 });
                        qs.push(Query::Slots { text, intent: s.intents[i].name.clone(), n: 0 });
                    }
                }
                match life(&d, &None, &qs) {
                    Ok(x) => n = (n.0 + x.0, n.1 + x.1),
                    Err(m) => return ctx.fail(format!("a life of an engine: {}", m), brief(&s)),
                }
                let _ = std::fs::remove_dir_all(&d);
                ctx.count("lives_of_other_models");
            }
            match life(&w.dir, &zip, &queries) {
                Ok(x) => n = (n.0 + x.0, n.1 + x.1),
                Err(m) => return ctx.fail(format!("a life of an engine: {}", m), brief(&w.spec)),
            }
            for d in &broken {
                match guard(|| SnipsNluEngine::from_path(d).map(|_| ())) {
                    Ok(Ok(_)) => ctx.count("damaged_models_accepted"),
                    Ok(Err(_)) => ctx.count("damaged_models_refused"),
                    Err(m) => return ctx.fail(format!("loading panics: {}", m), brief(&w.spec)),
                }
            }
            if let Some(e) = &inject {
                // the same value again: the model does not grow
                match guard(|| NluInjector::new(&w.dir).add_value(e.clone(), "same value".to_string()).inject().map_err(|e| e.to_string())) {
                    Ok(_) => ctx.count("injections"),
                    Err(m) => return ctx.fail(format!("injecting panics: {}", m), brief(&w.spec)),
                }
            }
            if round >= 2 {
                blocks.push(0);
                fds.push(entries("/proc/self/fd") as i64);
                threads.push(entries("/proc/self/task") as i64);
                let k = blocks.len() - 1;
                blocks[k] = alloc::live().0;
            }
        }
        let d = json!({"world": brief(&w.spec), "blocks": blocks, "files": fds, "threads": threads, "zip": zip.is_some(), "inject": inject,
                       "queries": queries.iter().map(|q| format!("{:?}", q)).collect::<Vec<_>>()});
        if grows(&blocks, 1) {
            return ctx.fail("memory is kept after the engines are gone", d);
        }
        if grows(&fds, 1) {
            return ctx.fail("files are left open after the engines are gone", d);
        }
        if grows(&threads, 1) {
            return ctx.fail("threads are left after the engines are gone", d);
        }
        ctx.count("lives_watched");
        ctx.add("queries", n.0 + n.1);
        ctx.add("failing_queries", n.1);
        ctx.eval(Some((&texts, zip.is_some(), inject.is_some())));
        ctx.sample(|| json!({"what": "lives", "blocks": blocks, "files": fds}));
    } else {
        // one engine asked more different questions than its caches hold, again and again
        let per_stage = 1050;
        let template: Vec<Query> = (0..24)
            .map(|_| {
                let t = rng.pick(&texts).clone();
                random_query(&w, rng, t)
            })
            .collect();
        let with_failures = rng.chance(40);
        let mut blocks = vec![];
        let mut bytes = vec![];
        let mut fds = vec![];
        let mut n = (0u64, 0u64);
        let mut stage = 0;
        // a suspicion is looked at for longer: caches of the libraries may still fill
        while stage < 6 || stage < 16 && (grows(&blocks, per_stage as i64 / 24) || grows(&bytes, per_stage as i64 * 16)) {
            for k in 0..per_stage {
                let mut q = template[k % template.len()].clone();
                let id = stage * per_stage + k;
                match &mut q {
                    Query::Parse { text, .. } | Query::Intents { text } | Query::Slots { text, .. } | Query::Extract { text, .. } => {
                        // words of the same length and of letters only
                        let tag: String = (0..5).map(|p| (b'a' + ((id / 26usize.pow(p)) % 26) as u8) as char).collect();
                        text.push_str(&format!(" zq{}", tag));
                        if with_failures && k % 7 == 0 {
                            text.push_str(" boom");
                        }
                    }
                }
                match ask(&w.engine, &q) {
                    Ok(a) if a.is_error() => n.1 += 1,
                    Ok(_) => n.0 += 1,
                    Err(m) => return ctx.fail(format!("panic: {}", m), about(&w.spec, &q, &"")),
                }
            }
            // the first stages fill the caches
            if stage >= 2 {
                fds.push(entries("/proc/self/fd") as i64);
                let (a, b) = alloc::live();
                blocks.push(a);
                bytes.push(b);
            }
            stage += 1;
        }
        let d = json!({"world": brief(&w.spec), "blocks": blocks, "bytes": bytes, "files": fds, "queries_per_stage": per_stage,
                       "queries": template.iter().map(|q| format!("{:?}", q)).collect::<Vec<_>>()});
        if grows(&blocks, per_stage as i64 / 24) {
            return ctx.fail("memory grows with the number of questions asked", d);
        }
        if grows(&bytes, per_stage as i64 * 16) {
            return ctx.fail("memory grows with the number of questions asked", d);
        }
        if grows(&fds, 1) {
            return ctx.fail("open files grow with the number of questions asked", d);
        }
        ctx.count("long_lives_watched");
        ctx.add("queries", n.0 + n.1);
        ctx.add("failing_queries", n.1);
        ctx.eval(Some((&texts, with_failures)));
        ctx.sample(|| json!({"what": "one long life", "blocks": blocks, "bytes": bytes, "files": fds}));
    }
}
