#!/usr/bin/env python3
"""Changes one place at a time in a copy of the repository's sources and tells which checks notice.

python3 tools/mutants.py OUT.jsonl [--dir /tmp/mut] [--files a.rs,b.rs] [--sample N] [--seed S] [--seconds 4] [--part K/N]

Works in a copy (DIR/repo, DIR/verif). One line per mutant in OUT.jsonl; survivors are also printed.
"""
import argparse, json, os, random, re, shutil, subprocess, time

ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--dir", default="/tmp/mut")
ap.add_argument("--files", default="")
ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--seconds", type=int, default=4)
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--part", default="0/1", help="K/N: only every N-th mutant, from the K-th on")
a = ap.parse_args()
D = a.dir
REPO, V = f"{D}/repo", f"{D}/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


os.makedirs(D, exist_ok=True)
sh(f"rm -rf {REPO} {V}; git clone -q /repo {REPO}; mkdir -p {V}; cd /verif && git archive HEAD harness stubs crates known_findings.txt properties.jsonl | tar x -C {V}")
sh(f"sed -i 's#/repo/#{REPO}/#g' {V}/harness/src/*.rs {V}/harness/build.rs {V}/crates/*/Cargo.toml; sed -i 's#-I/repo/#-I{REPO}/#' {V}/harness/build.rs")

# which checks look at a file first
FIRST = {
    "nlu_engine.rs": "C08 C24 C01 C09 C22 C23 C04 C13 C15",
    "deterministic_intent_parser.rs": "C06 C26 C02 C03 C29",
    "lookup_intent_parser.rs": "C07 C26 C02 C03 C29",
    "probabilistic_intent_parser.rs": "C31 C15",
    "crf_slot_filler.rs": "C27 C31 C15 C10 C11",
    "crf_utils.rs": "C10 C27 C11",
    "features.rs": "C11 C29",
    "feature_processor.rs": "C11 C29 C15",
    "features_utils.rs": "C11",
    "macros.rs": "C11",
    "featurizer.rs": "C12 C29 C15",
    "log_reg_intent_classifier.rs": "C05 C01 C04 C31 C29",
    "logreg.rs": "C05 C29",
    "utils.rs": "C30 C16 C01 C07 C06 C02 C32 C15",
    "slot_utils.rs": "C09",
    "injection.rs": "C17 C18",
    "loading.rs": "C25 C12 C15 C11",
    "custom_entity_parser.rs": "C30 C13 C15",
    "builtin_entity_parser.rs": "C30 C13 C15",
    "stemmer.rs": "C25", "gazetteer.rs": "C25", "word_clusterer.rs": "C25",
    "lib.rs": "C20 C19",
}
REST = "C03 C13 C15 C29 C31 C02 C22 C14 C32 C30".split()
ALL = [f"C{i:02d}" for i in range(1, 33) if i not in (21, 28)]

OPS = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "),
    (r"&&", "||"), (r"\|\|(?= )", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r"\+= ", "-= "), (r"-= ", "+= "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<=[ (])!(?=[a-z])", ""), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\bis_ok\(\)", "is_err()"),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.start\b", ".end"), (r"\.end\b", ".start"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b1\.0\b", "0.0"), (r"\b0\.0\b", "1.0"), (r"\b0\.5\b", "0.4"),
    (r"\.to_lowercase\(\)", ".to_string()"), (r"\bnormalize\(", "String::from("), (r"\.rev\(\)", ""), (r"\.chars\(\)\.count\(\)", ".len()"),
    (r"\.sort_by_key\(", ".len(); let _ = ("), (r"\.unique\(\)", ""), (r"\.saturating_sub\(", ".wrapping_sub("),
    (r"\.unwrap_or\(true\)", ".unwrap_or(false)"), (r"\.is_empty\(\)", ".len() == 1"),
    (r"char_range", "range"), (r"\.range\b", ".char_range"), (r"slots_alternatives", "0"), (r"slot_alternatives", "0"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"Some\((?=[a-z_]+\)[,;)]?$)", "None.or(Some("), (r"\bNone,$", "None"),
    (r"\.take\(", ".skip("), (r"\.skip\(", ".take("), (r"\.skip\(1\)", ""), (r"\.cloned\(\)\.unwrap_or", ".cloned().filter(|_| false).unwrap_or"),
    (r"\.find\(", ".rfind("), (r"\.next\(\)", ".last()"), (r"\.pop\(\)", ".into_iter().next()"), (r"\.clone\(\)\.unwrap_or", ".unwrap_or"),
    (r"ok_or_else\(", "or_else(|| None).ok_or_else("), (r"max_ngram_size", "1"), (r"\.filter\(\|", ".filter(|_| true).filter(|"),
]


def candidates(path):
    text = open(f"{REPO}/{path}").read()
    lines = text.split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if re.match(r"\s*mod tests\b", l) and i and "cfg(test)" in lines[i - 1]:
            end = i - 1
            break
    skip_until = -1
    out = []
    for i, l in enumerate(lines[:end]):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            # skip the item
            depth, j, seen = 0, i + 1, False
            while j < end:
                depth += lines[j].count("{") - lines[j].count("}")
                seen = seen or "{" in lines[j]
                if seen and depth <= 0:
                    break
                j += 1
            skip_until = j
        if i <= skip_until or not s or s.startswith(("//", "use ", "#", "pub use", "extern", "mod ", "pub mod", "info!", "debug!")):
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, l):
                before = l[: m.start()]
                if before.count('"') % 2 == 1:
                    continue
                new = before + m.expand(rep) + l[m.end():]
                if new != l:
                    out.append((i, i + 1, [new]))
        # a statement left out
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "const ", "}", ")", "static")) and l.count("(") == l.count(")"):
            out.append((i, i + 1, []))
        # one step of a chain left out
        if re.match(r"\.(filter|sorted|unique|rev|skip|take|filter_map|dedup|trim|sort\w*)\b", s) and l.count("(") == l.count(")") and not s.endswith(";"):
            out.append((i, i + 1, []))
        # a guard that never holds
        m = re.match(r"(\s*)(\} else )?if (?!let\b)(.*) \{$", l)
        if m:
            out.append((i, i + 1, [f"{m[1]}{m[2] or ''}if false && ({m[3]}) {{"]))
            out.append((i, i + 1, [f"{m[1]}{m[2] or ''}if true || ({m[3]}) {{"]))
    return lines, out


files = a.files.split(",") if a.files else sh(f"cd {REPO} && git ls-files 'src/*.rs' 'ffi/src/*.rs'").stdout.split()
files = [f for f in files if not f.endswith(("testutils.rs",))]
work = []
for f in files:
    lines, c = candidates(f)
    seen = set()
    for i, j, new in c:
        k = (i, tuple(new))
        if k not in seen:
            seen.add(k)
            work.append((f, i, j, new))
random.Random(a.seed).shuffle(work)
print(len(work), "mutants", flush=True)
if a.sample:
    work = work[: a.sample]
env = dict(os.environ, CARGO_TARGET_DIR=f"{D}/target", RUSTFLAGS="-Awarnings")
sh(f"cd {V}/harness && cargo build --offline --locked -q", env=env)
shutil.copy(f"{D}/target/debug/harness", f"{D}/exe") if os.path.exists(f"{D}/target/debug/harness") else exit("no build")
os.makedirs(f"{D}/rr", exist_ok=True)
shutil.copy(f"{V}/known_findings.txt", f"{D}/rr/")
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        r = json.loads(l)
        done.add((r["file"], r["line"], r["new"]))
K, N = map(int, a.part.split("/"))
for n, (f, i, j, new) in enumerate(work):
    if n % N != K:
        continue
    if (f, i + 1, "\n".join(new)) in done:
        continue
    p = f"{REPO}/{f}"
    old = open(p).read()
    lines = old.split("\n")
    rec = {"file": f, "line": i + 1, "old": "\n".join(lines[i:j]), "new": "\n".join(new)}
    open(p, "w").write("\n".join(lines[:i] + new + lines[j:]))
    t0 = time.time()
    try:
        b = sh(f"cd {V}/harness && timeout 120 cargo build --offline --locked -q", env=env)
        if b.returncode != 0:
            rec["result"] = "does not compile"
        else:
            first = FIRST.get(os.path.basename(f), "").split() if not f.startswith("src/models") else []
            if f.startswith("ffi"):
                order = ["C20", "C19"]
            else:
                order = first + [c for c in (REST if first else ALL) if c not in first]
            rec["result"] = "survived"
            rec["others"] = []
            for c in order:
                r = sh(f"timeout 60 {D}/target/debug/harness {c} --seed {random.randrange(1 << 30)} --seconds {a.seconds} --workers {a.workers} --root {D}/rr")
                if r.returncode == 1:
                    rec["result"] = "caught by " + c
                    break
                if r.returncode != 0:
                    rec["others"].append([c, r.returncode, r.stdout.strip().split("\n")[-1][:150]])
    finally:
        open(p, "w").write(old)
    rec["s"] = round(time.time() - t0, 1)
    with open(a.out, "a") as o:
        o.write(json.dumps(rec, ensure_ascii=False) + "\n")
    if rec["result"] == "survived":
        print(f"{n}: {f}:{i+1}\n  - {rec['old'].strip()}\n  + {rec['new'].strip()}\n  {rec['others']}", flush=True)
