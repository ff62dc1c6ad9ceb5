"""plant(): writes /verif/seeded/<id> and confirms it. catch(): runs checks against planted bugs.

python3 tools/planting.py catch ID... [--props C01,C02] [--tier quick]
python3 tools/planting.py confirm ID...
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def worktree():
    d = tempfile.mkdtemp(prefix="wt_", dir="/tmp")
    sh(f"rm -rf {d}; git -C {REPO} worktree add -q --detach {d} HEAD")
    return d


def drop(d):
    sh(f"git -C {REPO} worktree remove --force {d}")


def plant(id, prop, edits, demo, needs, breaks, extra=None):
    """edits: [(file, old, new)]"""
    d = worktree()
    try:
        for f, old, new in edits:
            p = f"{d}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return f"{id}: {f}: {t.count(old)} occurrences of {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {d} diff").stdout
    finally:
        drop(d)
    s = f"{V}/seeded/{id}"
    os.makedirs(s, exist_ok=True)
    open(f"{s}/patch.diff", "w").write(diff)
    open(f"{s}/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1, ensure_ascii=False) + "\n")
    open(f"{s}/demo.rs", "w").write(demo)
    for f in ("demo.sh", "kit.tar.gz"):
        shutil.copy(f"{V}/tools/seedkit/{f}", f"{s}/{f}")
    for name, text in (extra or {}).items():
        open(f"{s}/{name}", "w").write(text)
        os.chmod(f"{s}/{name}", 0o755)
    return confirm(id)


def confirm(id):
    s = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    sh(f"cp -r {V}/seeded/{id}/. {s}/; rm -f {s}/patch.diff {s}/meta.json")
    d = worktree()
    try:
        a = sh(f"bash {s}/demo.sh", cwd=d)
        if a.returncode != 0:
            return f"{id}: BAD demo fails unpatched ({a.returncode}):\n{a.stdout[-1500:]}"
        p = sh(f"git -C {d} apply {V}/seeded/{id}/patch.diff")
        if p.returncode:
            return f"{id}: BAD patch does not apply {p.stdout}"
        b = sh(f"bash {s}/demo.sh", cwd=d)
        if b.returncode in (0, 98, 99):
            return f"{id}: BAD demo with the patch: {b.returncode}\n{b.stdout[-300:]}"
        return f"{id}: ok ({b.returncode}) {b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else ''}"
    finally:
        drop(d)
        shutil.rmtree(s)


def repo_tests():
    a = sh("bash /opt/vp/build.sh; echo BUILD $?; bash /opt/vp/test.sh /tmp/t.json; echo TEST $?")
    ok = "BUILD 0" in a.stdout and "TEST 0" in a.stdout
    return ok


def unit_tests():
    """the repository's own unit tests, built with the stand-ins: the set of failures"""
    a = sh(f"cd {V}/crates/lib && CARGO_TARGET_DIR=/tmp/tl RUSTFLAGS=-Awarnings cargo test --offline --lib 2>&1", cwd=REPO)
    return sorted(l.split()[1] for l in a.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED"))


def catch(ids, props=None, tier="quick", tests=True):
    for id in ids:
        meta = json.load(open(f"{V}/seeded/{id}/meta.json"))
        assert sh(f"git -C {REPO} status --porcelain -uno").stdout == ""
        p = sh(f"git -C {REPO} apply {V}/seeded/{id}/patch.diff")
        if p.returncode:
            print(id, "does not apply", p.stdout)
            continue
        try:
            t = "tests ok" if not tests else ("tests ok" if repo_tests() else "TESTS FAIL")
            u = "" if not tests else f" unit failures {len(unit_tests())}"
            out = []
            for c in props or [meta["property"]]:
                r = sh(f"VERIF_SEED=1 VERIF_TIER={tier} bash {V}/run.sh {c}", cwd=V)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                ok = r.returncode == 1 and any(f"property={c}" in l for l in v)
                out.append(f"{c}:{'CAUGHT' if ok else 'missed rc=%d' % r.returncode}")
                if not ok and r.returncode not in (0, 1):
                    out.append(r.stdout[-600:])
            print(id, meta["property"], t + u, " ".join(out), flush=True)
        finally:
            sh(f"git -C {REPO} checkout -- .")


def plant_all(bugs):
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: plant(**b), bugs):
            print(r, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    props, tier = None, "quick"
    if "--props" in a:
        i = a.index("--props"); props = a[i + 1].split(","); del a[i:i + 2]
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    tests = "--no-tests" not in a
    a = [x for x in a if x != "--no-tests"]
    ids = a[1:] or sorted(os.listdir(f"{V}/seeded"))
    if a[0] == "catch":
        catch(ids, props, tier, tests)
    else:
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(confirm, ids):
                print(r, flush=True)
