//! Checks of the Python wrapper: an interpreter runs a plan of calls, the answers are compared
//! with the engine's own.
use crate::core::*;
use crate::engine_checks::*;
use crate::ffi_checks::answer_of;
use crate::load_checks::{entries_of, zip_of, TOPS};
use crate::world::*;
use serde_json::{json, Map, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

const DRIVER: &str = include_str!("../py/driver.py");
/// texts with this word make a component fail
const FAULT: &str = "zqfault";

/// the wrapper's package, with the extension library built from the current tree
fn package(ctx: &Ctx) -> PathBuf {
    let d = ctx.scratch.join("python");
    let pkg = d.join("snips_nlu_rust");
    if !pkg.exists() {
        let from = std::path::Path::new("/repo/platforms/python/snips_nlu_rust");
        std::fs::create_dir_all(pkg.join("dylib")).unwrap();
        for e in std::fs::read_dir(from).unwrap().flatten() {
            let n = e.file_name();
            if e.path().is_file() && !n.to_string_lossy().ends_with(".pyc") {
                std::fs::copy(e.path(), pkg.join(n)).unwrap();
            }
        }
        let lib = std::env::var("VERIF_PYLIB").expect("VERIF_PYLIB");
        std::os::unix::fs::symlink(lib, pkg.join("dylib/libsnips_nlu_rs.so")).unwrap();
        std::fs::write(d.join("driver.py"), DRIVER).unwrap();
    }
    d
}

#[derive(Clone, Debug)]
enum Expected {
    Answer(usize, Answer),
    /// an error of the engine, with what its message tells
    Failure(Vec<String>),
    WrongType,
    Created,
    Leak(usize),
    Threads(Vec<Vec<(Value, Expected)>>),
    Done,
}

fn text_arg(w: &World, rng: &mut Rng) -> String {
    match rng.below(20) {
        0 => String::new(),
        1 => format!("{} {}", any_text(w, rng, 0), FAULT),
        _ => any_text(w, rng, 25).replace('\0', " "),
    }
}

fn names(w: &World, rng: &mut Rng, wrong: &mut bool) -> Option<Value> {
    let f = random_filter(rng, &w.spec, true)?;
    let mut v: Vec<Value> = f.into_iter().filter(|s| !s.contains('\0')).map(Value::from).collect();
    if rng.chance(6) {
        let bad = [json!(1), Value::Null, json!({"__bytes__": "MakeTea"}), json!(["MakeTea"]), json!(true)][rng.below(5)].clone();
        let at = rng.below(v.len() + 1);
        v.insert(at, bad);
        *wrong = true;
    }
    Some(Value::Array(v))
}

fn list(v: &Option<Value>) -> Option<Vec<String>> {
    v.as_ref().map(|v| v.as_array().unwrap().iter().filter_map(|x| x.as_str().map(str::to_string)).collect())
}

/// puts some of the arguments by position, the others by name
fn arguments(rng: &mut Rng, given: Vec<(&str, Option<Value>)>) -> (Vec<Value>, Map<String, Value>) {
    let mut args = vec![];
    let mut kwargs = Map::new();
    let mut positional = rng.chance(60);
    for (i, (name, v)) in given.iter().enumerate() {
        let later = given[i..].iter().any(|g| g.1.is_some());
        if positional && later && (v.is_some() || (name.starts_with("intents_") && name.ends_with("list"))) {
            args.push(v.clone().unwrap_or(Value::Null));
        } else {
            positional = false;
            if let Some(v) = v {
                kwargs.insert(name.to_string(), v.clone());
            }
        }
        positional &= rng.chance(75);
    }
    (args, kwargs)
}

/// what the engine fails with, or None
fn failure(a: &Answer, white: &Option<Vec<String>>, black: &Option<Vec<String>>, intent: Option<&str>, w: &World) -> Option<Vec<String>> {
    match a {
        Answer::Error(m) => {
            let known = |n: &str| w.spec.intents.iter().any(|i| i.name == n);
            let unknown: Vec<&str> =
                white.iter().flatten().chain(black.iter().flatten()).map(|s| &**s).chain(intent).filter(|n| !known(n)).collect();
            // any of the unknown names may be told
            Some(match unknown.len() {
                0 => vec![if m.contains("injected fault") { "injected fault".to_string() } else { m.clone() }],
                _ => unknown.iter().map(|s| s.to_string()).collect(),
            })
        }
        _ => None,
    }
}

fn query(w: &World, rng: &mut Rng, on: &str) -> Result<(Value, Expected), String> {
    let text = text_arg(w, rng);
    let mut wrong = false;
    let n = |rng: &mut Rng, max: usize| if rng.chance(40) { None } else { Some(if rng.chance(4) { 0x7fff_ffff } else { rng.below(max) }) };
    let (op, method, given, q) = match rng.below(6) {
        0..=2 => {
            let (white, black) = (names(w, rng, &mut wrong), names(w, rng, &mut wrong));
            let (mut ia, sa) = (n(rng, 5), n(rng, 7));
            if text.contains(FAULT) && ia.map_or(false, |x| x > 0) {
                // which of the intents of equal confidence is listed, and fails, is left open
                ia = Some(40);
            }
            let q = Query::Parse { text: text.clone(), white: list(&white), black: list(&black), intents: ia.unwrap_or(0), slots: sa.unwrap_or(5) };
            let given = vec![
                ("query", Some(json!(text))),
                ("intents_whitelist", white),
                ("intents_blacklist", black),
                ("intents_alternatives", ia.map(|x| json!(x))),
                ("slots_alternatives", sa.map(|x| json!(x))),
            ];
            (1, "parse", given, q)
        }
        3 | 4 => {
            let intent = if rng.chance(10) { ["nope", "", "MakeTea'"][rng.below(3)].to_string() } else { rng.pick(&w.spec.intents).name.clone() };
            let sa = n(rng, 7);
            let q = Query::Slots { text: text.clone(), intent: intent.clone(), n: sa.unwrap_or(5) };
            (3, "get_slots", vec![("query", Some(json!(text))), ("intent", Some(json!(intent))), ("slots_alternatives", sa.map(|x| json!(x)))], q)
        }
        _ => (4, "get_intents", vec![("query", Some(json!(text)))], Query::Intents { text: text.clone() }),
    };
    vmon::fail_text(Some(FAULT));
    let a = ask(&w.engine, &q);
    vmon::clear_faults();
    let a = a.map_err(|p| format!("panic: {}", p))?;
    let (args, kwargs) = arguments(rng, given);
    let step = json!({"do": method, "on": on, "args": args, "kwargs": kwargs});
    let f = match &q {
        Query::Parse { white, black, .. } => failure(&a, white, black, None, w),
        Query::Slots { intent, .. } => failure(&a, &None, &None, Some(intent), w),
        _ => failure(&a, &None, &None, None, w),
    };
    Ok((
        step,
        match (wrong, f) {
            (true, _) => Expected::WrongType,
            (_, Some(f)) => Expected::Failure(f),
            _ => Expected::Answer(op, a),
        },
    ))
}

fn judge(got: &Value, want: &Expected) -> Result<(), String> {
    if got.get("changed").is_some() {
        return Err("an argument is changed by the call".into());
    }
    let error = |mro: &str| -> Result<String, String> {
        let e = got.get("error").ok_or_else(|| format!("succeeds instead of raising {}", mro))?;
        let types = e["mro"].as_array().cloned().unwrap_or_default();
        if !types.iter().any(|t| t == mro) {
            return Err(format!("raises {} instead of {}: {}", types[0], mro, e["message"]));
        }
        Ok(e["message"].as_str().unwrap_or("").to_string())
    };
    match want {
        Expected::Answer(op, a) => match got.get("ok") {
            None => Err(format!("raises {} instead of answering", got)),
            Some(v) => match answer_of(*op, &v.to_string()) {
                None => Err(format!("returns what cannot be read: {}", v)),
                Some(x) if !same(&x, a) => Err(format!("returns {:?}, the engine answers {:?}", x, a)),
                _ => Ok(()),
            },
        },
        Expected::Failure(told) => {
            let m = error("ValueError")?;
            // the wrapper's own words name the query and the intent: the engine's come after
            if told.iter().any(|t| m.contains(&**t)) { Ok(()) } else { Err(format!("the message {:?} does not tell {:?}", m, told)) }
        }
        Expected::WrongType => error("TypeError").map(|_| ()),
        Expected::Created | Expected::Done => if got.get("ok").is_some() { Ok(()) } else { Err(format!("fails: {}", got)) },
        Expected::Leak(n) => {
            let g: Vec<i64> = got["growth"].as_array().ok_or("no measure")?.iter().map(|x| x.as_i64().unwrap()).collect();
            if g[1..].iter().all(|x| *x >= 16 * *n as i64) {
                return Err(format!("each {} calls leave more memory allocated: {:?} bytes", n, g));
            }
            Ok(())
        }
        Expected::Threads(_) => Ok(()),
    }
}

pub fn c21(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { all_value_kinds: rng.chance(40), ..Opts::default() };
    let w = match world(ctx, rng, &o) {
        Some(w) => w,
        None => return,
    };
    let top = rng.pick(TOPS).to_string();
    let zip = zip_of(&entries_of(&w.dir, &top, rng));
    let (archive, cut) = (ctx.scratch.join("model.zip"), ctx.scratch.join("cut.zip"));
    std::fs::write(&archive, &zip).unwrap();
    std::fs::write(&cut, &zip[..rng.below(zip.len())]).unwrap();
    let dir = w.dir.to_str().unwrap().to_string();
    let file = |p: &PathBuf| json!({"__file__": p.to_str().unwrap()});
    let created = |rng: &mut Rng, name: &str| {
        let args = match rng.below(5) {
            0 => json!({"args": [dir]}),
            1 => json!({"kwargs": {"engine_dir": dir}}),
            2 => json!({"kwargs": {"engine_dir": {"__path__": dir}}}),
            3 => json!({"kwargs": {"engine_dir": dir, "engine_bytes": file(&cut)}}),
            _ => json!({"kwargs": {"engine_bytes": file(&archive)}}),
        };
        let mut s = args;
        s["do"] = json!("new");
        s["as"] = json!(name);
        s
    };
    let failing = |rng: &mut Rng| {
        let missing = format!("{}/missing_model", dir);
        let (mut s, told) = match rng.below(6) {
            0 => (json!({}), vec!["engine_dir".to_string()]),
            1 => (json!({"args": [missing]}), vec!["missing_model".to_string()]),
            2 => (json!({"kwargs": {"engine_bytes": file(&cut)}}), vec![": ".to_string()]),
            3 => (json!({"kwargs": {"engine_dir": archive.to_str().unwrap()}}), vec![": ".to_string()]),
            4 => (json!({"args": [""]}), vec![": ".to_string()]),
            _ => (json!({"args": [null, null]}), vec!["engine_dir".to_string()]),
        };
        s["do"] = json!("new");
        s["as"] = json!("failed");
        (s, told)
    };
    let mut plan: Vec<(Value, Expected)> = vec![];
    let mut alive: Vec<String> = vec![];
    let n = if ctx.thorough { 120 } else { 60 };
    for step in 0..n {
        let what = rng.below(100);
        if alive.is_empty() || what < 4 {
            let name = format!("e{}", step);
            plan.push((created(rng, &name), Expected::Created));
            alive.push(name);
        } else if what < 9 {
            let (s, told) = failing(rng);
            let missing_arguments = told[0] == "engine_dir";
            plan.push((s, Expected::Failure(told)));
            ctx.count(if missing_arguments { "missing_arguments" } else { "refused_models" });
        } else if what < 11 && alive.len() > 1 {
            let i = rng.below(alive.len());
            plan.push((json!({"do": "del", "on": alive.swap_remove(i)}), Expected::Done));
        } else if what < 14 {
            let threads: Result<Vec<Vec<(Value, Expected)>>, String> =
                (0..rng.range(2, 4)).map(|_| (0..6).map(|_| query(&w, rng, rng.clone().pick(&alive))).collect()).collect();
            let threads = match threads {
                Ok(t) => t,
                Err(m) => return ctx.fail(m, json!({"world": brief(&w.spec)})),
            };
            let steps: Vec<Vec<Value>> = threads.iter().map(|t| t.iter().map(|s| s.0.clone()).collect()).collect();
            plan.push((json!({"do": "threads", "steps": steps}), Expected::Threads(threads)));
        } else {
            let on = rng.pick(&alive).clone();
            match query(&w, rng, &on) {
                Ok(x) => plan.push(x),
                Err(m) => return ctx.fail(m, json!({"world": brief(&w.spec)})),
            }
        }
    }
    // leaks: an answer, a failure of each kind, an engine, a refused engine
    let on = alive[0].clone();
    let mut kinds = vec![];
    for _ in 0..40 {
        if let Ok((s, e)) = query(&w, rng, &on) {
            let k = (s["do"].clone(), match e {
                Expected::Answer(..) => 0,
                Expected::WrongType => 2,
                _ => 1,
            });
            if !kinds.contains(&k) {
                kinds.push(k);
                if rng.chance(35) {
                    plan.push((json!({"do": "leak", "step": s, "n": 60, "rounds": 5}), Expected::Leak(60)));
                }
            }
        }
    }
    if rng.chance(30) {
        plan.push((json!({"do": "leak", "step": failing(rng).0, "n": 20, "rounds": 5}), Expected::Leak(20)));
    }
    if rng.chance(30) {
        plan.push((json!({"do": "leak", "step": created(rng, "again"), "n": 12, "rounds": 8}), Expected::Leak(12)));
    }
    let steps: Vec<&Value> = plan.iter().map(|p| &p.0).collect();
    let (pf, of) = (ctx.scratch.join("plan.json"), ctx.scratch.join("out.jsonl"));
    std::fs::write(&pf, serde_json::to_vec(&steps).unwrap()).unwrap();
    let _ = std::fs::remove_file(&of);
    let pkg = package(ctx);
    let out = Command::new("python3")
        .arg(pkg.join("driver.py"))
        .args(&[&pkg, &pf, &of])
        .env("VMON_FAIL_TEXT", FAULT)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        // freed memory is not kept as if in use
        .env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0")
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let text = std::fs::read_to_string(&of).unwrap_or_default();
    let got: Vec<Value> = text.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let err = String::from_utf8_lossy(&out.stderr).chars().take(2000).collect::<String>();
    for (g, (s, e)) in got.iter().zip(&plan) {
        let all: Vec<(&Value, &Value, &Expected)> = match e {
            Expected::Threads(t) => t
                .iter()
                .enumerate()
                .flat_map(|(i, v)| v.iter().enumerate().map(move |(j, (s, e))| (&g["threads"][i][j], s, e)))
                .collect(),
            _ => vec![(g, s, e)],
        };
        if let Expected::Threads(_) = e {
            ctx.count("concurrent_rounds");
        }
        for (g, s, e) in all {
            if let Err(m) = judge(g, e) {
                return ctx.fail(format!("{}: {}", s["do"].as_str().unwrap(), m), json!({"world": brief(&w.spec), "step": s, "stderr": err}));
            }
            ctx.count(match e {
                Expected::Answer(..) => "answers_compared",
                Expected::Failure(_) => "value_errors",
                Expected::WrongType => "type_errors",
                Expected::Created => "engines_created",
                Expected::Leak(_) => "leak_measures",
                _ => "other_steps",
            });
            ctx.eval(Some((&w.spec.intents[0].name, s.to_string())));
        }
    }
    ctx.sample(|| json!({"step": plan[plan.len() / 2].0, "returned": got.get(plan.len() / 2)}));
    if got.len() != plan.len() + 1 {
        let at = plan.get(got.len()).map(|p| p.0.clone()).unwrap_or(Value::Null);
        let how = match out.status.signal() {
            // the memory guard
            Some(9) => panic!("the interpreter was killed"),
            Some(s) => format!("the interpreter crashes (signal {})", s),
            None => format!("the interpreter ends with {:?}", out.status.code()),
        };
        ctx.fail(how, json!({"world": brief(&w.spec), "step": at, "stderr": err}));
    }
}
