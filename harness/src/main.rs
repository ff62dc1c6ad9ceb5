mod alloc;
mod core;
mod engine_checks;
mod ffi_checks;
mod inject_checks;
mod load_checks;
mod misfit_checks;
mod model_checks;
mod part_checks;
mod python_checks;
mod refm;
mod texts;
mod world;

use crate::core::*;

macro_rules! check {
    ($id:expr, $run:path, $q:expr, $t:expr, $rule:expr, $($a:expr),*) => {
        Check { id: $id, run: $run, quick_s: $q, thorough_s: $t, quick_cases: 0, thorough_cases: 0, rule: $rule, assumptions: &[$($a),*] }
    };
}

const STANDIN: &str = "the entity parsers and the tagger are deterministic stand-ins with the contract of the real ones";

fn checks() -> Vec<Check> {
    use engine_checks::*;
    use ffi_checks::*;
    use inject_checks::*;
    use load_checks::*;
    use misfit_checks::*;
    use model_checks::*;
    use part_checks::*;
    use python_checks::*;
    vec![
        check!("C01", c01, 12, 240, "random synthetic engines, texts and filters; non-trivial: a filter is set and there is an intent to filter", STANDIN),
        check!("C02", c02, 12, 240, "random synthetic engines and texts, half of them hostile; non-trivial: at least one slot", STANDIN),
        check!("C03", c03, 12, 240, "random synthetic engines, hostile texts, injected faults; each evaluation is followed by a probe query", STANDIN),
        check!("C04", c04, 12, 240, "random synthetic engines and texts; non-trivial: an intent has a confidence above 0", STANDIN),
        check!("C05", c05, 12, 240, "random classes, weights of all magnitudes, texts; non-trivial: a score bounded within 1e-3 on a text with features", STANDIN),
        check!("C06", c06, 12, 240, "random pattern sets and texts; non-trivial: a pattern matches", STANDIN),
        check!("C07", c07, 12, 240, "random lookup tables and texts; non-trivial: an utterance matches", STANDIN),
        check!("C08", c08, 12, 240, "random engines, filters, faults; non-trivial: an intent or an error", STANDIN),
        check!("C09", c09, 12, 240, "random engines with many shared values; non-trivial: a slot to resolve", STANDIN),
        check!("C10", c10, 12, 240, "random and encoded tag sequences on random texts; non-trivial: a slot, or a refusal", STANDIN),
        check!("C11", c11, 12, 240, "random feature configurations and texts, and wrong configurations; non-trivial: a feature", STANDIN),
        check!("C12", c12, 12, 240, "random vectorizers and texts; non-trivial: a feature that is not zero", STANDIN),
        check!("C13", c13, 12, 240, "histories of 60 queries against fresh engines", STANDIN),
        check!("C14", c14, 15, 240, "2 to 8 threads, injected delays and failures; non-trivial: distinct order of component calls over threads", STANDIN),
        check!("C15", c15, 12, 240, "random synthetic models, one damage at a time, directories and archives; distinct: the damage", STANDIN),
        check!("C16", c16, 12, 240, "random synthetic models in archives with hostile names, clashes, cuts, altered bytes; file system watched with inotify and compared before and after", STANDIN),
        check!("C17", c17, 12, 240, "random synthetic models, 1 to 4 injections, values in other letter cases and with the same stems; distinct: entity, text, value", STANDIN),
        check!("C18", c18, 12, 240, "random requests that must be refused, all files compared; distinct: damage, entities, resources given", STANDIN),
        check!("C19", c19, 15, 240, "random sequences of C calls that keep to the contract, alone (repeated, with failing components) or on 2 to 4 threads, under AddressSanitizer; distinct: sequence of calls and outcomes", STANDIN),
        check!("C20", c20, 15, 240, "each question asked as C structures, as JSON text and of the engine, under AddressSanitizer; distinct: function, text, kinds of values", STANDIN),
        check!("C21", c21, 15, 240, "random histories of calls of the Python wrapper, on 1 to 4 threads, with wrong arguments and failing components; memory measured over repetitions; distinct: call", STANDIN),
        check!("C22", c22, 12, 240, "random engines, texts, intents; non-trivial: slots are listed", STANDIN),
        check!("C23", c23, 12, 240, "random engines, slot texts; non-trivial: a slot is extracted", STANDIN),
        check!("C24", c24, 12, 240, "random engines, filters, numbers of alternatives; non-trivial: there are alternatives", STANDIN),
        check!("C25", c25, 12, 240, "random resource files, words listed, close to listed, or not; malformed files; distinct: kind of resource, answer and word", STANDIN),
        check!("C26", c26, 12, 240, "random stop words, exceptions and texts with stop words added and removed; non-trivial: a pattern matches", STANDIN),
        check!("C27", c27, 12, 240, "random tag sequences with tags unknown to the tagger, histories with failures, threads; distinct: text and tags", STANDIN),
        check!("C29", c29, 12, 240, "random synthetic models with one to three values changed so that their files can still be read, or a file of another model; then queries; distinct: the place and kind of the change", STANDIN),
        check!("C30", c30, 12, 240, "random synthetic models, crowded and hostile texts, scopes, failures, threads; non-trivial: an entity is found; distinct: text, scope, number of alternatives", STANDIN),
        check!("C31", c31, 12, 240, "random probabilistic parsers against their parts loaded apart; non-trivial: an intent, or slots; distinct: text and intent", STANDIN),
        check!("C32", c32, 12, 240, "whole lives of engines (from directory or archive, with failing queries, refused models, injections), and long lives with thousands of different questions; distinct: texts", STANDIN),
    ]
}

fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let mut args = Args {
        id: argv.get(0).cloned().unwrap_or_default(),
        thorough: false,
        seed: 1,
        case: None,
        root: std::path::PathBuf::from("/verif"),
        worker: None,
        seconds: None,
        workers: None,
    };
    let mut i = 1;
    while i < argv.len() {
        let next = || argv.get(i + 1).cloned().unwrap_or_default();
        match &*argv[i] {
            "--thorough" => args.thorough = true,
            "--seed" => args.seed = next().parse().unwrap(),
            "--case" => args.case = Some(next().parse().unwrap()),
            "--root" => args.root = next().into(),
            "--seconds" => args.seconds = Some(next().parse().unwrap()),
            "--workers" => args.workers = Some(next().parse().unwrap()),
            "--worker" => {
                let p = next();
                let (a, b) = p.split_once('/').unwrap();
                args.worker = Some((a.parse().unwrap(), b.parse().unwrap(), argv[i + 2].clone().into()));
                i += 1;
            }
            other => panic!("unknown argument {}", other),
        }
        i += if argv[i] == "--thorough" { 1 } else { 2 };
    }
    if args.id == "alive" {
        return;
    }
    let all = checks();
    let check = all.iter().find(|c| c.id == args.id).unwrap_or_else(|| panic!("no check {:?}", args.id));
    if args.worker.is_some() {
        worker_main(check, &args);
    } else {
        std::process::exit(parent_main(check, &args));
    }
}
